// Runtime shared by the harnesses in symbolic mode (linked as bitcode with the Qt model) and native mode (linked with
// the real QtCore). Everything here stands for the environment of jom: files, console, Win32, event delivery.
#pragma once
#include <QtCore/QtCore>
#include "sym.h"
// ---- files (relative paths; the working directory is rt_cwd())
QString rt_cwd();
void rt_file(const QByteArray &path, const QByteArray &content, bool exists = true, quint64 mtime = 1);
void rt_dir(const QByteArray &path);
bool rt_exists(const QByteArray &path);
QByteArray rt_content(const QByteArray &path);
// time stamp seen through GetFileAttributesExW; harnesses may change it between queries
void rt_touch(const QByteArray &path, bool exists, quint64 mtime);
extern int rt_statCount;                              // number of GetFileAttributesExW calls
// ---- console
QByteArray &rt_stdout();
QByteArray &rt_stderr();
// ---- process exit
extern "C" int rt_run(void (*fn)(void *), void *ctx); // -1: returned normally; otherwise the code given to exit()
// ---- environment variables of the jom process (GetEnvironmentVariableW / SetEnvironmentVariableW)
void rt_setenv(const QByteArray &name, const QByteArray &value);
QString rt_getenv(const QByteArray &name);
void rt_clearenv();
extern int rt_setenvCount;
// ---- event loop
void rt_pump();                                       // deliver all posted events
bool rt_fireTimer();                                  // let one timer expire
bool rt_loopStep();                                   // provided by harnesses: one step of the environment while jom waits; false: none possible
extern int rt_warnings;
#define R_(s) QLatin1String(s)
// ---- symbolic input helpers
static inline uint8_t rt_byte(const char *n) { return (uint8_t)sym_new(n, 8); }
static inline bool rt_bool(const char *n) { return sym_concretize(sym_new(n, 8) & 1) != 0; } // forks
// one of the n characters in set, no fork
uint8_t rt_oneOf(const char *name, const char *set);
uint32_t rt_choose(const char *name, uint32_t n);     // value in [0,n), made concrete (forks)
QString rt_str(const char *name, const char *set, int len);        // len characters from set
QByteArray rt_bytes(const char *name, const char *set, int len);
void rt_observe(const char *name, const QString &s);
void rt_observe(const char *name, const QByteArray &s);
bool rt_eq(const QString &a, const QString &b);       // length and characters, one comparison (no fork per character)
bool rt_eqb(const QByteArray &a, const QByteArray &b);
