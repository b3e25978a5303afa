// API between harnesses/models and the symbolic engine (symbolic mode) or the replay runtime (native mode).
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint64_t sym_new(const char *name, int width);        // fresh symbolic value of the given bit width
void sym_assume(int cond);                            // drop executions where cond is false
void sym_assert(int cond, const char *label);         // decided by the solver on every path
void sym_fail(const char *label) __attribute__((noreturn));
void sym_reach(const char *label);                    // reachability witness
void sym_observe(const char *name, const void *p, size_t n);
void sym_observe_int(const char *name, uint64_t v);
uint64_t sym_concretize(uint64_t v);
void sym_end(void) __attribute__((noreturn));
int sym_is_symbolic(void);                            // 1 under the engine, 0 natively
int sym_is_const(uint64_t v);
void sym_print(const void *p, size_t n);
void sym_internal_error(const char *msg) __attribute__((noreturn)); // model does not cover this: inconclusive
}
