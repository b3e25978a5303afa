// jomsym: symbolic executor for LLVM 18 IR with z3 as deciding solver.
// See /verif/DESIGN.md ("Engine").
#include <sys/stat.h>
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3++.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <atomic>
#include <functional>
#include <unordered_map>
#include <chrono>
#include <map>
#include <set>
#include <memory>
#include <cstdio>
#include <cstdlib>
using namespace llvm;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- shared statistics
struct LabelStat { char name[96]; std::atomic<uint64_t> a, b, c; }; // asserts: a=checked b=solver c=violated ; reach: a=count
struct Shared {
    std::atomic<int> active, live, stop, timeout, nviol, nviolNew, ncase, lock;
    std::atomic<uint64_t> paths, pathsErr, forks, queries, qsat, qunsat, qunk, qcache, solverUs, instrs, pending, maxInstr, concretized;
    std::atomic<int> inconclusive; char incMsg[16][400]; std::atomic<int> nInc;
    std::atomic<int> nlab; LabelStat lab[512];
    std::atomic<int> nreach; LabelStat reach[512];
    std::atomic<uint8_t> fnExec[65536];
};
static Shared *SH;
static void shLock() { int z = 0; while (!SH->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(10); } }
static void shUnlock() { SH->lock = 0; }
static LabelStat *labelStat(bool reach, const std::string &n) {
    static std::map<std::string, LabelStat *> memo[2];
    auto &m = memo[reach]; auto it = m.find(n); if (it != m.end()) return it->second;
    shLock();
    std::atomic<int> &cnt = reach ? SH->nreach : SH->nlab; LabelStat *arr = reach ? SH->reach : SH->lab;
    LabelStat *r = nullptr;
    for (int i = 0; i < cnt; ++i) if (n == arr[i].name) r = &arr[i];
    if (!r && cnt < 512) { r = &arr[cnt]; snprintf(r->name, sizeof r->name, "%s", n.c_str()); cnt++; }
    shUnlock();
    if (!r) r = &arr[511];
    m[n] = r; return r;
}
static void inconclusive(const std::string &msg) {
    SH->inconclusive = 1;
    shLock();
    bool dup = false;
    for (int i = 0; i < SH->nInc; ++i) if (!strncmp(SH->incMsg[i], msg.c_str(), 399)) dup = true;
    if (!dup && SH->nInc < 16) { snprintf(SH->incMsg[SH->nInc], 400, "%s", msg.c_str()); SH->nInc++; }
    shUnlock();
}

// ---------------------------------------------------------------- options
static std::string optOut = ".", optEntry = "sym_main";
static double optTime = 600; static int optProcs = 8; static uint64_t optMaxInstr = 30000000, optMaxDepth = 1500; static unsigned optSolverMs = 30000;
static int optMaxCases = 200, optMaxViol = 24; static bool optVerbose = false; static uint64_t optSeed = 1;
static std::set<std::string> optStopLabels;

// ---------------------------------------------------------------- values and memory
struct Val { uint64_t c; E e; };
static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : xConst(v.c, w); }
static inline Val fromE(E e) { if (isC(e)) return { e->c, nullptr }; return { 0, e }; }
static inline Val cv(uint64_t c) { return { c, nullptr }; }

enum { OF_CONST = 1, OF_HEAP = 2, OF_STACK = 4, OF_GLOBAL = 8, OF_NEW = 16, OF_NEWARR = 32 };
struct Obj { uint32_t ref, size; uint32_t flags; uint8_t *d; E *s; };
static Obj *newObj(uint32_t size, uint32_t flags, int fill) {
    Obj *o = (Obj *)malloc(sizeof(Obj) + size); o->ref = 1; o->size = size; o->flags = flags; o->d = (uint8_t *)(o + 1); o->s = nullptr;
    memset(o->d, fill, size); return o;
}
static Obj *cloneObj(Obj *p) {
    Obj *o = (Obj *)malloc(sizeof(Obj) + p->size); o->ref = 1; o->size = p->size; o->flags = p->flags; o->d = (uint8_t *)(o + 1);
    memcpy(o->d, p->d, p->size);
    if (p->s) { o->s = (E *)malloc(sizeof(E) * p->size); memcpy(o->s, p->s, sizeof(E) * p->size); } else o->s = nullptr;
    return o;
}
static inline void unref(Obj *o) { if (o && --o->ref == 0) { free(o->s); free(o); } }
static Obj *const FREED = (Obj *)1;
enum { PG = 128 };
struct Page { uint32_t ref; Obj *o[PG]; };
static void unrefPage(Page *p) { if (p && --p->ref == 0) { for (int i = 0; i < PG; ++i) if (p->o[i] != FREED) unref(p->o[i]); delete p; } }
struct Mem {
    std::vector<Page *> pages; uint32_t next = 1;
    Mem() {}
    Mem(const Mem &m) : pages(m.pages), next(m.next) { for (Page *p : pages) if (p) p->ref++; }
    Mem &operator=(const Mem &) = delete;
    ~Mem() { for (Page *p : pages) unrefPage(p); }
    Obj *get(uint32_t id) const { uint32_t pi = id / PG; if (pi >= pages.size() || !pages[pi]) return nullptr; return pages[pi]->o[id % PG]; }
    Page *wpage(uint32_t pi) {
        if (pi >= pages.size()) pages.resize(pi + 1, nullptr);
        Page *&p = pages[pi];
        if (!p) { p = new Page; p->ref = 1; memset(p->o, 0, sizeof p->o); }
        else if (p->ref > 1) { Page *q = new Page; q->ref = 1; memcpy(q->o, p->o, sizeof q->o); for (int i = 0; i < PG; ++i) if (q->o[i] && q->o[i] != FREED) q->o[i]->ref++; p->ref--; p = q; }
        return p;
    }
    uint32_t add(Obj *o) { uint32_t id = next++; wpage(id / PG)->o[id % PG] = o; return id; }
    void freeId(uint32_t id) { Page *p = wpage(id / PG); Obj *o = p->o[id % PG]; if (o != FREED) unref(o); p->o[id % PG] = FREED; }
    Obj *getW(uint32_t id) { Page *p = wpage(id / PG); Obj *&o = p->o[id % PG]; if (o->ref > 1) { Obj *n = cloneObj(o); o->ref--; o = n; } return o; }
};

// ---------------------------------------------------------------- decoded code
enum Opc : uint16_t { OP_BIN, OP_ICMP, OP_CAST_Z, OP_CAST_S, OP_TRUNC, OP_COPY, OP_SELECT, OP_LOAD, OP_STORE, OP_ALLOCA, OP_GEP, OP_BR, OP_CONDBR, OP_SWITCH, OP_CALL,
    OP_RET, OP_EXTRACTV, OP_INSERTV, OP_LANDINGPAD, OP_RESUME, OP_UNREACHABLE, OP_RMW, OP_CMPXCHG, OP_FP, OP_UNSUPPORTED, OP_NOP, OP_FREEZE };
struct Op { Opc op; uint16_t sub; uint8_t w, w2; uint16_t n; int32_t dst, a, b, c; uint32_t x; const Instruction *inst; };
struct Edge { int pc; std::vector<std::pair<int, int>> cp; };
struct Gep { int64_t off; std::vector<std::tuple<int, int64_t, uint8_t>> idx; };
struct CallInfo { int callee; int calleeOp; std::vector<int> args; std::vector<uint32_t> byval; std::vector<uint8_t> argw; int normal, unwind; int nret; uint8_t retw; Intrinsic::ID iid; };
struct SwitchInfo { std::vector<std::pair<uint64_t, int>> cases; int def; };
struct LPad { bool cleanup; std::vector<uint64_t> clauses; };
struct State;
struct Fn { Function *f; std::string name; bool decoded = false, decl = false; int idx; std::vector<Op> ops; int nregs = 0; std::vector<int> argSlot; std::vector<Edge> edges;
    std::vector<Gep> geps; std::vector<CallInfo> calls; std::vector<SwitchInfo> sws; std::vector<LPad> lpads; int handler = -1; };

static Module *M; static const DataLayout *DL;
static std::vector<Fn *> g_fns; static std::unordered_map<const Function *, int> g_fnIdx; static std::map<std::string, int> g_fnByName;
static std::vector<Val> g_pool; static std::unordered_map<const Constant *, int> g_poolIdx;
static std::unordered_map<const GlobalValue *, uint64_t> g_addr;
static std::map<std::string, uint64_t> g_addrByName; static std::map<uint64_t, std::string> g_nameByAddr;
static const uint64_t FN_BASE = 0x70000000ULL;
static uint64_t VT_CLASS, VT_SI, VT_VMI;

struct Frame { Fn *fn; int pc; int base; int callOpDst; std::vector<uint32_t> allocas; };
struct Exn { uint64_t addr, ti, dtor; int handlers; bool rethrown; };
struct Obs { std::string name; bool isInt; unsigned w; std::vector<Val> v; };
struct VarInfo { std::string name; uint8_t w; };
struct State {
    std::vector<Frame> fr; std::vector<Val> stk; Mem mem;
    std::vector<E> pc; std::vector<uint64_t> model; std::vector<VarInfo> vars; std::vector<Val> known; // known: c=value, e!=0 means known
    std::vector<Exn> exns; std::vector<uint64_t> caught; uint64_t lpExn = 0, lpSel = 0;
    std::vector<Obs> obs; uint64_t instrs = 0; uint64_t pathHash = 1; bool dead = false; int depthForks = 0; uint64_t userFlags = 0;
};
static std::vector<State *> g_work; static State *S; static bool g_inMain; // current

// ---------------------------------------------------------------- solver
struct Z3 {
    z3::context ctx; z3::solver sol; std::unordered_map<uint32_t, z3::expr> memo;
    Z3() : sol(ctx, "QF_BV") { z3::params p(ctx); p.set("timeout", optSolverMs); sol.set(p); }
    z3::expr conv(E e) {
        auto it = memo.find(e->id); if (it != memo.end()) return it->second;
        z3::expr r(ctx);
        auto B = [&](const z3::expr &c) { return z3::ite(c, ctx.bv_val(1, 1), ctx.bv_val(0, 1)); };
        switch (e->k) {
        case K_CONST: r = ctx.bv_val((uint64_t)e->c, e->w); break;
        case K_SYM: { char b[40]; snprintf(b, sizeof b, "v%u_%u", (unsigned)e->c, e->w); r = ctx.bv_const(b, e->w); break; }
        case K_ZEXT: r = z3::zext(conv(e->a), e->w - e->a->w); break;
        case K_SEXT: r = z3::sext(conv(e->a), e->w - e->a->w); break;
        case K_EXTRACT: r = conv(e->a).extract(e->aux + e->w - 1, e->aux); break;
        case K_CONCAT: r = z3::concat(conv(e->a), conv(e->b)); break;
        case K_ITE: r = z3::ite(conv(e->a) == ctx.bv_val(1, 1), conv(e->b), conv(e->d)); break;
        default: {
            z3::expr a = conv(e->a), b = conv(e->b);
            switch (e->k) {
            case K_ADD: r = a + b; break; case K_SUB: r = a - b; break; case K_MUL: r = a * b; break;
            case K_UDIV: r = z3::udiv(a, b); break; case K_SDIV: r = a / b; break; case K_UREM: r = z3::urem(a, b); break; case K_SREM: r = z3::srem(a, b); break;
            case K_AND: r = a & b; break; case K_OR: r = a | b; break; case K_XOR: r = a ^ b; break;
            case K_SHL: r = z3::shl(a, b); break; case K_LSHR: r = z3::lshr(a, b); break; case K_ASHR: r = z3::ashr(a, b); break;
            case K_EQ: r = B(a == b); break; case K_ULT: r = B(z3::ult(a, b)); break; case K_ULE: r = B(z3::ule(a, b)); break;
            case K_SLT: r = B(a < b); break; case K_SLE: r = B(a <= b); break;
            default: abort();
            }
        } }
        memo.emplace(e->id, r); return r;
    }
};
static Z3 *g_z3;
struct CacheEnt { int res; std::vector<uint64_t> vals; };
static std::unordered_map<std::string, CacheEnt> g_qcache;

static void collectSlice(const State &s, E cond, std::vector<E> &out) {
    std::vector<char> in(s.vars.size() + 1, 0);
    for (int v : cond->vars->v) in[v] = 1;
    std::vector<char> taken(s.pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < s.pc.size(); ++i) {
            if (taken[i]) continue;
            bool hit = false; for (int v : s.pc[i]->vars->v) if (in[v]) { hit = true; break; }
            if (!hit) continue;
            taken[i] = 1; for (int v : s.pc[i]->vars->v) if (!in[v]) { in[v] = 1; ch = true; }
        }
    }
    for (size_t i = 0; i < s.pc.size(); ++i) if (taken[i]) out.push_back(s.pc[i]);
}
static void serialize(E e, std::unordered_map<uint32_t, int> &num, std::vector<int> &vorder, std::unordered_map<uint64_t, int> &vnum, std::string &out) {
    auto put = [&](uint64_t v) { while (v >= 128) { out.push_back((char)(v | 128)); v >>= 7; } out.push_back((char)v); };
    auto it = num.find(e->id); if (it != num.end()) { out.push_back((char)0xff); put(it->second); return; }
    out.push_back((char)e->k); out.push_back((char)e->w);
    if (e->k == K_CONST) { put(e->c); return; }
    if (e->k == K_SYM) { auto f = vnum.find(e->c); int n; if (f == vnum.end()) { n = (int)vorder.size(); vnum[e->c] = n; vorder.push_back((int)e->c); } else n = f->second; put(n); return; }
    put(e->aux);
    serialize(e->a, num, vorder, vnum, out); if (e->b) serialize(e->b, num, vorder, vnum, out); if (e->d) serialize(e->d, num, vorder, vnum, out);
    int n = (int)num.size(); num.emplace(e->id, n);
}
enum { UNSAT = 0, SAT = 1, UNK = 2 };
// satisfiability of path condition and cond; on SAT, *model receives a full assignment
static std::map<std::string, uint64_t> *g_prof;
static int query(const State &s, E cond, std::vector<uint64_t> *model) {
    if (isC(cond)) { if (cond->c) { if (model) *model = s.model; return SAT; } return UNSAT; }
    SH->queries++;
    if (g_prof) { std::string k; for (size_t i = s.fr.size(), j = 0; i-- > 0 && j < 3; ++j) k += s.fr[i].fn->name + " "; g_prof->operator[](k)++; }
    std::vector<E> sl; collectSlice(s, cond, sl);
    std::string key; std::unordered_map<uint32_t, int> num; std::vector<int> vorder; std::unordered_map<uint64_t, int> vnum;
    serialize(cond, num, vorder, vnum, key);
    for (E e : sl) { key.push_back((char)0xfe); serialize(e, num, vorder, vnum, key); }
    auto it = g_qcache.find(key);
    CacheEnt ent;
    if (it != g_qcache.end()) { SH->qcache++; ent = it->second; }
    else {
        double t0 = now();
        g_z3->sol.push();
        for (E e : sl) g_z3->sol.add(g_z3->conv(e) == g_z3->ctx.bv_val(1, 1));
        g_z3->sol.add(g_z3->conv(cond) == g_z3->ctx.bv_val(1, 1));
        z3::check_result r = z3::unknown;
        try { r = g_z3->sol.check(); } catch (z3::exception &) {}
        ent.res = r == z3::sat ? SAT : r == z3::unsat ? UNSAT : UNK;
        if (ent.res == SAT) {
            z3::model m = g_z3->sol.get_model();
            for (int v : vorder) {
                char b[40]; snprintf(b, sizeof b, "v%d_%u", v, s.vars[v].w);
                z3::expr x = m.eval(g_z3->ctx.bv_const(b, s.vars[v].w), true); uint64_t val = 0; x.is_numeral_u64(val); ent.vals.push_back(val);
            }
        }
        g_z3->sol.pop();
        SH->solverUs += (uint64_t)((now() - t0) * 1e6);
        if (ent.res == SAT) SH->qsat++; else if (ent.res == UNSAT) SH->qunsat++; else SH->qunk++;
        if (ent.res != UNK) { if (g_qcache.size() > 3000000) g_qcache.clear(); g_qcache.emplace(std::move(key), ent); }
    }
    if (ent.res == SAT && model) {
        *model = s.model; model->resize(s.vars.size(), 0);
        for (size_t i = 0; i < vorder.size(); ++i) (*model)[vorder[i]] = ent.vals[i];
    }
    return ent.res;
}

static E substRec(const State &s, E e, std::unordered_map<uint32_t, E> &memo) {
    bool any = false, all = true;
    for (int v : e->vars->v) { if (s.known[v].e) any = true; else all = false; }
    if (!any) return e;
    if (all) { return xConst(evalE(e, s.model), e->w); }
    auto it = memo.find(e->id); if (it != memo.end()) return it->second;
    E r;
    switch (e->k) {
    case K_ZEXT: r = xZext(substRec(s, e->a, memo), e->w); break;
    case K_SEXT: r = xSext(substRec(s, e->a, memo), e->w); break;
    case K_EXTRACT: r = xExtract(substRec(s, e->a, memo), e->aux, e->w); break;
    case K_CONCAT: r = xConcat(substRec(s, e->a, memo), substRec(s, e->b, memo)); break;
    case K_ITE: { E c = substRec(s, e->a, memo); if (isC(c)) r = substRec(s, c->c ? e->b : e->d, memo); else r = xIte(c, substRec(s, e->b, memo), substRec(s, e->d, memo)); break; }
    default: r = xBin(e->k, substRec(s, e->a, memo), substRec(s, e->b, memo)); break;
    }
    memo.emplace(e->id, r); return r;
}
static inline E subst(const State &s, E e) {
    bool any = false; for (int v : e->vars->v) if (s.known[v].e) { any = true; break; }
    if (!any) return e;
    std::unordered_map<uint32_t, E> memo; return substRec(s, e, memo);
}
static void addConstraint(State &s, E c) {
    if (isC(c)) return;
    if (c->k == K_AND) { addConstraint(s, c->a); addConstraint(s, c->b); return; }
    s.pc.push_back(c);
    E t = c;
    if (t->w == 1 && t->k == K_SYM) { s.known[t->c] = { 1, c }; }
    else if (t->k == K_XOR && isC(t->b, 1) && t->a->k == K_SYM) s.known[t->a->c] = { 0, c };
    else if (t->k == K_EQ && isC(t->b) && t->a->k == K_SYM) s.known[t->a->c] = { t->b->c, c };
}
static State *cloneState(const State &s) { State *n = new State(s); SH->forks++; n->depthForks++; return n; }

// ---------------------------------------------------------------- reporting
static std::string stackStr(const State &s) {
    std::string r;
    for (size_t i = s.fr.size(); i-- > 0;) { r += s.fr[i].fn->name; r += "\n"; if (s.fr.size() - i > 25) break; }
    return r;
}
static std::string caseText(const State &s, const std::vector<uint64_t> &model, bool withObs) {
    std::string r; char b[128];
    for (size_t i = 0; i < s.vars.size(); ++i) {
        snprintf(b, sizeof b, "v %s %u %llu\n", s.vars[i].name.c_str(), s.vars[i].w, (unsigned long long)(i < model.size() ? model[i] & maskw(s.vars[i].w) : 0)); r += b;
    }
    if (withObs) for (const Obs &o : s.obs) {
        if (o.isInt) { uint64_t v = o.v[0].e ? evalE(o.v[0].e, model) : o.v[0].c; snprintf(b, sizeof b, "o %s i %llu\n", o.name.c_str(), (unsigned long long)v); r += b; }
        else { r += "o " + o.name + " b "; for (const Val &v : o.v) { snprintf(b, sizeof b, "%02x", (unsigned)((v.e ? evalE(v.e, model) : v.c) & 255)); r += b; } r += "\n"; }
    }
    return r;
}
static void violation(const State &s, const std::vector<uint64_t> &model, const std::string &label, const std::string &detail) {
    uint64_t nth = ++labelStat(false, label)->c;
    // keep a bounded number per label; stop early only when several labels are violated or one of them again and again,
    // so that counterexamples that do not reproduce natively do not hide others
    if (label.compare(0, 6, "known:") != 0) { if (nth <= 16) SH->nviolNew++; else if (nth >= 160) SH->nviolNew += optMaxViol; }
    if (nth > 12) return;
    int n = SH->nviol++;
    if (n < 400) {
        std::string fn = optOut + "/viol." + std::to_string(n); FILE *f = fopen(fn.c_str(), "w");
        if (f) { std::string d = detail; for (char &c : d) if (c == '\n') c = '|';
            fprintf(f, "# label %s\n# detail %s\n", label.c_str(), d.c_str()); fputs(caseText(s, model, false).c_str(), f); fclose(f); }
    }
}
struct EndPath {};
static void endPath(State &s, bool err) { s.dead = true; if (err) SH->pathsErr++; }
[[noreturn]] static void pathError(const std::string &label, const std::string &msg) {
    violation(*S, S->model, label, msg + "\n" + stackStr(*S)); endPath(*S, true); throw EndPath();
}
[[noreturn]] static void unsupported(const std::string &msg) {
    inconclusive(msg + " in " + (S->fr.empty() ? std::string("?") : S->fr.back().fn->name) + (S->fr.size() > 1 ? " <- " + S->fr[S->fr.size() - 2].fn->name : ""));
    endPath(*S, true); throw EndPath();
}
static void pathDone(State &s) {
    uint64_t p = SH->paths++;
    uint64_t h = mix(s.pathHash, optSeed);
    if (p < 16 || (SH->ncase < optMaxCases && (h & 1023) < (p < 4096 ? 64 : p < 65536 ? 8 : 1))) {
        int n = SH->ncase++;
        if (n < optMaxCases) { FILE *f = fopen((optOut + "/case." + std::to_string(n)).c_str(), "w"); if (f) { fputs(caseText(s, s.model, true).c_str(), f); fclose(f); } }
    }
}

// ---------------------------------------------------------------- branching
// decide a 1-bit condition in the current state; may push the other side to the work list via `other` hook
static bool decide(E c0, const std::function<void(State &)> &onOther, bool &forked) {
    forked = false;
    E c = isC(c0) ? c0 : subst(*S, c0);
    if (isC(c)) return c->c;
    bool v = evalE(c, S->model);
    E want = v ? c : xNot(c), oth = v ? xNot(c) : c;
    std::vector<uint64_t> m;
    int r = query(*S, oth, &m);
    if (r == UNSAT) return v;
    if (r == UNK) { inconclusive("solver returned unknown on a branch"); }
    State *o = cloneState(*S);
    if (r == SAT) o->model = m;
    addConstraint(*o, oth); o->pathHash = mix(o->pathHash, 2 + !v);
    onOther(*o);
    g_work.push_back(o);
    addConstraint(*S, want); S->pathHash = mix(S->pathHash, 2 + v);
    forked = true;
    return v;
}
static uint64_t forkValue(E e0) { // concretise e in the current state; other values are explored by a sibling that re-executes the instruction
    E e = subst(*S, e0); if (isC(e)) return e->c;
    uint64_t v = evalE(e, S->model);
    E eq = xEq(e, xConst(v, e->w)); bool forked;
    SH->concretized++;
    decide(eq, [](State &) {}, forked);
    return v;
}
static uint64_t conc(const Val &v, unsigned w) { (void)w; return v.e ? forkValue(v.e) : v.c; }

// ---------------------------------------------------------------- memory access
static std::string memName(uint64_t a) { auto it = g_nameByAddr.find(a >> 32 << 32); return it == g_nameByAddr.end() ? "" : it->second; }
static Obj *access(uint64_t a, uint64_t n, const char *what) {
    uint32_t id = (uint32_t)(a >> 32), off = (uint32_t)a;
    Obj *o = S->mem.get(id);
    if (o == FREED) pathError(std::string("memory: use after free (") + what + ")", "");
    if (!o) pathError(std::string(id == 0 || id == 0xffffffff ? "memory: null dereference (" : "memory: wild pointer (") + what + ")", "addr " + std::to_string(a));
    if ((uint64_t)off + n > o->size) pathError(std::string("memory: out of bounds (") + what + ")", "offset " + std::to_string((int32_t)off) + " size " + std::to_string(n) + " object size " + std::to_string(o->size) + " " + memName(a));
    return o;
}
static Val loadBytes(Obj *o, uint32_t off, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (!o->s) { uint64_t v = 0; memcpy(&v, o->d + off, n); return cv(v & maskw(w)); }
    bool sym = false; for (unsigned i = 0; i < n; ++i) if (o->s[off + i]) { sym = true; break; }
    if (!sym) { uint64_t v = 0; memcpy(&v, o->d + off, n); return cv(v & maskw(w)); }
    E r = nullptr;
    for (unsigned i = 0; i < n; ++i) { E b = o->s[off + i] ? o->s[off + i] : xConst(o->d[off + i], 8); r = r ? xConcat(b, r) : b; }
    r = xExtract(r, 0, w);
    if (!isC(r)) { bool all = true; for (int v : r->vars->v) if (!S->known[v].e) { all = false; break; } if (all) return cv(evalE(r, S->model)); }
    return fromE(r);
}
static void storeBytes(Obj *o, uint32_t off, unsigned w, const Val &v) {
    unsigned n = (w + 7) / 8;
    if (!v.e) { uint64_t c = v.c & maskw(w); memcpy(o->d + off, &c, n); if (o->s) memset(o->s + off, 0, n * sizeof(E)); return; }
    if (!o->s) o->s = (E *)calloc(o->size, sizeof(E));
    E e = v.e; if (e->w < n * 8) e = xZext(e, n * 8);
    for (unsigned i = 0; i < n; ++i) { E b = xExtract(e, i * 8, 8); if (isC(b)) { o->d[off + i] = (uint8_t)b->c; o->s[off + i] = nullptr; } else o->s[off + i] = b; }
}
static Val memLoad(const Val &addr, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (!addr.e) { Obj *o = access(addr.c, n, "read"); return loadBytes(o, (uint32_t)addr.c, w); }
    E a = subst(*S, addr.e);
    if (isC(a)) { Obj *o = access(a->c, n, "read"); return loadBytes(o, (uint32_t)a->c, w); }
    uint64_t hi = forkValue(xExtract(a, 32, 32));
    E off = xExtract(subst(*S, a), 0, 32);
    if (isC(off)) { uint64_t aa = hi << 32 | off->c; Obj *o = access(aa, n, "read"); return loadBytes(o, (uint32_t)aa, w); }
    Obj *o = access(hi << 32, 0, "read");
    if (o->size < n) access(hi << 32, n, "read");
    // out of bounds feasible?
    E inb = xBin(K_ULE, off, xConst(o->size - n, 32)); bool forked;
    bool ok = decide(inb, [](State &) {}, forked);
    if (!ok) { uint64_t v = forkValue(off); access(hi << 32 | v, n, "read"); return cv(0); }
    off = subst(*S, off);
    if (isC(off)) return loadBytes(o, (uint32_t)off->c, w);
    // table read with symbolic index: build an ite chain over runs of equal values
    if (!o->s && o->size / n <= 4096) {
        unsigned sh = n == 8 ? 3 : n == 4 ? 2 : n == 2 ? 1 : 0;
        E low = sh ? xExtract(off, 0, sh) : xConst(0, 1);
        if (isC(low)) {
            uint32_t base = sh ? (uint32_t)low->c : 0; E idx = sh ? xExtract(off, sh, 32 - sh) : off;
            uint32_t cnt = (o->size - base) / n; uint64_t um = umaxOf(idx); if (um + 1 < cnt) cnt = (uint32_t)um + 1;
            std::vector<std::pair<uint32_t, uint64_t>> runs; // (end index exclusive, value)
            for (uint32_t i = 0; i < cnt && runs.size() <= 160; ++i) { uint64_t v = 0; memcpy(&v, o->d + base + (size_t)i * n, n); v &= maskw(w); if (!runs.empty() && runs.back().second == v) runs.back().first = i + 1; else runs.push_back({ i + 1, v }); }
            if (runs.size() <= 160) {
                E r = xConst(runs.back().second, w);
                for (size_t i = runs.size() - 1; i-- > 0;) r = xIte(xBin(K_ULT, idx, xConst(runs[i].first, idx->w)), xConst(runs[i].second, w), r);
                return fromE(r);
            }
        }
    }
    uint64_t v = forkValue(off);
    return loadBytes(o, (uint32_t)v, w);
}
static Obj *accessW(uint64_t a, uint64_t n, const char *what) {
    Obj *o = access(a, n, what);
    if (o->flags & OF_CONST) pathError("memory: write to constant", memName(a));
    return S->mem.getW((uint32_t)(a >> 32));
}
static void memStore(const Val &addr, unsigned w, const Val &v) {
    uint64_t a = conc(addr, 64); unsigned n = (w + 7) / 8;
    Obj *o = accessW(a, n, "write"); storeBytes(o, (uint32_t)a, w, v);
}
static void memCopy(uint64_t d, uint64_t s, uint64_t n) {
    if (!n) return;
    Obj *so = access(s, n, "memcpy read"); so->ref++;
    struct G { Obj *o; ~G() { unref(o); } } g{ so };
    Obj *dob;
    try { dob = accessW(d, n, "memcpy write"); } catch (...) { throw; }
    uint32_t doff = (uint32_t)d, soff = (uint32_t)s;
    memmove(dob->d + doff, so->d + soff, n);
    if (so->s) { if (!dob->s) { bool any = false; for (uint64_t i = 0; i < n; ++i) if (so->s[soff + i]) { any = true; break; } if (any) dob->s = (E *)calloc(dob->size, sizeof(E)); } if (dob->s) memmove(dob->s + doff, so->s + soff, n * sizeof(E)); }
    else if (dob->s) memset(dob->s + doff, 0, n * sizeof(E));
}
static uint64_t allocMem(uint64_t n, uint32_t flags, int fill) {
    if (n > (256u << 20)) pathError("memory: huge allocation", std::to_string(n));
    return (uint64_t)S->mem.add(newObj((uint32_t)n, flags, fill)) << 32;
}
static void freeMem(uint64_t a, uint32_t kind) {
    if (!a) return;
    Obj *o = S->mem.get((uint32_t)(a >> 32));
    if (o == FREED) pathError("memory: double free", "");
    if (!o || (uint32_t)a != 0 || !(o->flags & OF_HEAP)) pathError("memory: invalid free", "");
    if ((o->flags & (OF_NEW | OF_NEWARR)) != kind) pathError("memory: mismatched deallocation", "");
    S->mem.freeId((uint32_t)(a >> 32));
}
static std::string cstr(uint64_t a, size_t max = 4096) {
    std::string r; for (size_t i = 0; i < max; ++i) { Obj *o = access(a + i, 1, "string"); uint32_t off = (uint32_t)(a + i); if (o->s && o->s[off]) { r += '?'; continue; } char c = (char)o->d[off]; if (!c) break; r += c; } return r;
}

// ---------------------------------------------------------------- decoding
static unsigned slotsOf(Type *t) {
    if (t->isVoidTy()) return 0;
    if (auto *st = dyn_cast<StructType>(t)) { unsigned n = 0; for (Type *e : st->elements()) n += slotsOf(e); return n; }
    if (auto *at = dyn_cast<ArrayType>(t)) return (unsigned)at->getNumElements() * slotsOf(at->getElementType());
    if (auto *vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements();
    return 1;
}
static unsigned widthOf(Type *t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    return 0;
}
static unsigned fieldSlot(Type *t, ArrayRef<unsigned> idx, Type **out) {
    unsigned s = 0;
    for (unsigned i : idx) {
        if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; ++k) s += slotsOf(st->getElementType(k)); t = st->getElementType(i); }
        else { auto *at = cast<ArrayType>(t); s += i * slotsOf(at->getElementType()); t = at->getElementType(); }
    }
    *out = t; return s;
}
static uint64_t constAddr(const GlobalValue *gv) {
    if (auto *ga = dyn_cast<GlobalAlias>(gv)) { const GlobalObject *o = ga->getAliaseeObject(); return constAddr(o); }
    if (gv->hasExternalWeakLinkage() && gv->isDeclaration()) return 0;
    auto it = g_addr.find(gv); if (it == g_addr.end()) { errs() << "no address for " << gv->getName() << "\n"; exit(3); }
    return it->second;
}
struct BadConst { std::string m; };
static void constVals(const Constant *c, std::vector<Val> &out) {
    Type *t = c->getType();
    if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) throw BadConst{ "wide int" }; out.push_back(cv(ci->getZExtValue())); return; }
    if (isa<ConstantPointerNull>(c)) { out.push_back(cv(0)); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { unsigned n = slotsOf(t); for (unsigned i = 0; i < n; ++i) out.push_back(cv(0)); return; }
    if (auto *cf = dyn_cast<ConstantFP>(c)) { out.push_back(cv(cf->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
    if (auto *gv = dyn_cast<GlobalValue>(c)) { out.push_back(cv(constAddr(gv))); return; }
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); ++i) constVals(ca->getOperand(i), out); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); ++i) constVals(cd->getElementAsConstant(i), out); return; }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        auto one = [&](unsigned i) { std::vector<Val> v; constVals(ce->getOperand(i), v); return v[0].c; };
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto *g = cast<GEPOperator>(ce); APInt off(64, 0);
            if (!g->accumulateConstantOffset(*DL, off)) throw BadConst{ "gep" };
            out.push_back(cv(one(0) + off.getSExtValue())); return; }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::ZExt: case Instruction::AddrSpaceCast: out.push_back(cv(one(0) & maskw(widthOf(t)))); return;
        case Instruction::Trunc: { uint64_t x = one(0); if (x > 0xffffffffULL && x < ~0x7fffffffULL) throw BadConst{ "relative address" }; out.push_back(cv(x & maskw(widthOf(t)))); return; }
        case Instruction::Add: out.push_back(cv((one(0) + one(1)) & maskw(widthOf(t)))); return;
        case Instruction::Sub: out.push_back(cv((one(0) - one(1)) & maskw(widthOf(t)))); return;
        case Instruction::And: out.push_back(cv(one(0) & one(1))); return;
        case Instruction::Or: out.push_back(cv(one(0) | one(1))); return;
        case Instruction::Xor: out.push_back(cv(one(0) ^ one(1))); return;
        case Instruction::Mul: out.push_back(cv((one(0) * one(1)) & maskw(widthOf(t)))); return;
        case Instruction::ICmp: {
            uint64_t a = one(0), b = one(1);
            switch (ce->getPredicate()) {
            case CmpInst::ICMP_EQ: out.push_back(cv(a == b)); return;
            case CmpInst::ICMP_NE: out.push_back(cv(a != b)); return;
            case CmpInst::ICMP_ULT: out.push_back(cv(a < b)); return;
            case CmpInst::ICMP_UGT: out.push_back(cv(a > b)); return;
            default: throw BadConst{ "icmp" };
            }
        }
        case Instruction::Select: out.push_back(cv(one(0) ? one(1) : one(2))); return;
        default: throw BadConst{ ce->getOpcodeName() };
        }
    }
    if (isa<PoisonValue>(c)) { out.push_back(cv(0)); return; }
    throw BadConst{ "constant kind" };
}
static int poolOf(const Constant *c) {
    auto it = g_poolIdx.find(c); if (it != g_poolIdx.end()) return it->second;
    std::vector<Val> v; constVals(c, v); if (v.empty()) v.push_back(cv(0));
    int idx = -(1 + (int)g_pool.size()); for (auto &x : v) g_pool.push_back(x);
    g_poolIdx[c] = idx; return idx;
}
static inline int slotOp(int op, int k) { return op >= 0 ? op + k : op - k; }

enum Handler { H_NONE = -1, H_MALLOC, H_CALLOC, H_REALLOC, H_FREE, H_NEW, H_NEWA, H_DEL, H_DELA, H_MEMCPY, H_MEMSET, H_BCMP, H_MEMCMP,
    H_CXA_ALLOC, H_CXA_FREE, H_CXA_THROW, H_CXA_BEGIN, H_CXA_END, H_CXA_RETHROW, H_CXA_GETPTR, H_TERMINATE, H_ABORT, H_ATEXIT, H_GUARD_ACQ, H_GUARD_REL, H_GUARD_ABORT,
    H_SYM_NEW, H_SYM_ASSUME, H_SYM_ASSERT, H_SYM_REACH, H_SYM_OBS, H_SYM_OBSI, H_SYM_CONC, H_SYM_END, H_SYM_ISSYM, H_SYM_PRINT, H_SYM_FAIL, H_SYM_ISCONST, H_NOPV, H_SYM_PICK, H_SYM_INTERNAL, H_SYM_EXIT };
static const std::map<std::string, int> g_handlers = {
    { "malloc", H_MALLOC }, { "calloc", H_CALLOC }, { "realloc", H_REALLOC }, { "free", H_FREE },
    { "_Znwm", H_NEW }, { "_Znam", H_NEWA }, { "_ZnwmRKSt9nothrow_t", H_NEW }, { "_ZnamRKSt9nothrow_t", H_NEWA }, { "_ZnwmSt11align_val_t", H_NEW },
    { "_ZdlPv", H_DEL }, { "_ZdlPvm", H_DEL }, { "_ZdaPv", H_DELA }, { "_ZdaPvm", H_DELA }, { "_ZdlPvRKSt9nothrow_t", H_DEL }, { "_ZdlPvmSt11align_val_t", H_DEL }, { "_ZdlPvSt11align_val_t", H_DEL },
    { "memcpy", H_MEMCPY }, { "memmove", H_MEMCPY }, { "memset", H_MEMSET }, { "bcmp", H_BCMP }, { "memcmp", H_MEMCMP },
    { "__cxa_allocate_exception", H_CXA_ALLOC }, { "__cxa_free_exception", H_CXA_FREE }, { "__cxa_throw", H_CXA_THROW }, { "__cxa_begin_catch", H_CXA_BEGIN },
    { "__cxa_end_catch", H_CXA_END }, { "__cxa_rethrow", H_CXA_RETHROW }, { "__cxa_get_exception_ptr", H_CXA_GETPTR }, { "_ZSt9terminatev", H_TERMINATE }, { "abort", H_ABORT }, { "__assert_fail", H_ABORT }, { "__cxa_pure_virtual", H_ABORT },
    { "__cxa_atexit", H_ATEXIT }, { "atexit", H_ATEXIT }, { "__cxa_guard_acquire", H_GUARD_ACQ }, { "__cxa_guard_release", H_GUARD_REL }, { "__cxa_guard_abort", H_GUARD_ABORT },
    { "sym_new", H_SYM_NEW }, { "sym_assume", H_SYM_ASSUME }, { "sym_assert", H_SYM_ASSERT }, { "sym_reach", H_SYM_REACH }, { "sym_observe", H_SYM_OBS }, { "sym_observe_int", H_SYM_OBSI },
    { "sym_concretize", H_SYM_CONC }, { "sym_end", H_SYM_END }, { "sym_is_symbolic", H_SYM_ISSYM }, { "sym_print", H_SYM_PRINT }, { "sym_fail", H_SYM_FAIL }, { "sym_is_const", H_SYM_ISCONST }, { "sym_internal_error", H_SYM_INTERNAL }, { "sym_exit", H_SYM_EXIT },
};

static void decode(Fn *fn) {
    fn->decoded = true;
    Function &F = *fn->f;
    std::unordered_map<const Value *, int> slot; int n = 0;
    for (auto &A : F.args()) { slot[&A] = n; fn->argSlot.push_back(n); n += std::max(1u, slotsOf(A.getType())); }
    for (auto &BB : F) for (auto &I : BB) if (!I.getType()->isVoidTy()) { slot[&I] = n; n += slotsOf(I.getType()); }
    fn->nregs = n;
    std::unordered_map<const BasicBlock *, int> bbpc;
    struct Fix { size_t edge; const BasicBlock *from, *to; }; std::vector<Fix> fixes;
    auto opnd = [&](const Value *v) -> int { if (auto *c = dyn_cast<Constant>(v)) return poolOf(c); return slot.at(v); };
    auto edge = [&](const BasicBlock *from, const BasicBlock *to) -> int { fn->edges.emplace_back(); fixes.push_back({ fn->edges.size() - 1, from, to }); return (int)fn->edges.size() - 1; };
    for (auto &BB : F) {
        bbpc[&BB] = (int)fn->ops.size();
        for (auto &I : BB) {
            if (isa<PHINode>(I)) continue;
            Op o; memset(&o, 0, sizeof o); o.inst = &I; o.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; o.op = OP_UNSUPPORTED;
            try {
            if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
                o.w = widthOf(I.getType());
                static const std::map<unsigned, Kind> mp = { { Instruction::Add, K_ADD }, { Instruction::Sub, K_SUB }, { Instruction::Mul, K_MUL }, { Instruction::UDiv, K_UDIV }, { Instruction::SDiv, K_SDIV }, { Instruction::URem, K_UREM }, { Instruction::SRem, K_SREM }, { Instruction::And, K_AND }, { Instruction::Or, K_OR }, { Instruction::Xor, K_XOR }, { Instruction::Shl, K_SHL }, { Instruction::LShr, K_LSHR }, { Instruction::AShr, K_ASHR } };
                auto it = mp.find(bo->getOpcode());
                if (it != mp.end()) { if (I.getType()->isIntegerTy() && widthOf(I.getType()) <= 64) { o.op = OP_BIN; o.sub = it->second; o.a = opnd(bo->getOperand(0)); o.b = opnd(bo->getOperand(1)); } }
                else if (I.getType()->isFloatTy() || I.getType()->isDoubleTy()) { o.op = OP_FP; o.sub = bo->getOpcode(); o.a = opnd(bo->getOperand(0)); o.b = opnd(bo->getOperand(1)); }
            } else if (auto *ic = dyn_cast<ICmpInst>(&I)) {
                o.w = widthOf(ic->getOperand(0)->getType());
                if (ic->getOperand(0)->getType()->isIntOrPtrTy() && widthOf(ic->getOperand(0)->getType()) <= 64) { o.op = OP_ICMP; o.sub = ic->getPredicate(); o.a = opnd(ic->getOperand(0)); o.b = opnd(ic->getOperand(1)); }
            } else if (auto *ca = dyn_cast<CastInst>(&I)) {
                Type *st = ca->getSrcTy(), *dt = ca->getDestTy(); o.a = opnd(ca->getOperand(0)); o.w2 = widthOf(st); o.w = widthOf(dt);
                bool okw = o.w2 && o.w && widthOf(st) <= 64 && widthOf(dt) <= 64;
                if (okw) switch (ca->getOpcode()) {
                case Instruction::ZExt: o.op = OP_CAST_Z; break;
                case Instruction::SExt: o.op = OP_CAST_S; break;
                case Instruction::Trunc: o.op = OP_TRUNC; break;
                case Instruction::PtrToInt: o.op = o.w < 64 ? OP_TRUNC : OP_COPY; break;
                case Instruction::IntToPtr: o.op = o.w2 < 64 ? OP_CAST_Z : OP_COPY; break;
                case Instruction::BitCast: o.op = OP_COPY; break;
                case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc:
                    o.op = OP_FP; o.sub = ca->getOpcode(); break;
                default: break;
                }
            } else if (isa<FreezeInst>(I)) { o.op = OP_COPY; o.a = opnd(I.getOperand(0)); if (slotsOf(I.getType()) != 1) o.op = OP_UNSUPPORTED; }
            else if (auto *fc = dyn_cast<FCmpInst>(&I)) { o.op = OP_FP; o.sub = Instruction::FCmp; o.n = fc->getPredicate(); o.w2 = widthOf(fc->getOperand(0)->getType()); o.a = opnd(fc->getOperand(0)); o.b = opnd(fc->getOperand(1)); }
            else if (I.getOpcode() == Instruction::FNeg) { o.op = OP_FP; o.sub = Instruction::FNeg; o.w = widthOf(I.getType()); o.a = opnd(I.getOperand(0)); o.b = o.a; }
            else if (auto *se = dyn_cast<SelectInst>(&I)) { o.op = OP_SELECT; o.w = widthOf(I.getType()); o.n = slotsOf(I.getType()); o.a = opnd(se->getCondition()); o.b = opnd(se->getTrueValue()); o.c = opnd(se->getFalseValue()); if (!se->getCondition()->getType()->isIntegerTy(1)) o.op = OP_UNSUPPORTED; }
            else if (auto *ld = dyn_cast<LoadInst>(&I)) { o.w = widthOf(I.getType()); o.a = opnd(ld->getPointerOperand()); if (o.w && widthOf(I.getType()) <= 64) o.op = OP_LOAD; }
            else if (auto *st = dyn_cast<StoreInst>(&I)) { Type *t = st->getValueOperand()->getType(); o.w = widthOf(t); o.a = opnd(st->getPointerOperand()); o.b = opnd(st->getValueOperand()); if (o.w && widthOf(t) <= 64) o.op = OP_STORE; }
            else if (auto *al = dyn_cast<AllocaInst>(&I)) { o.op = OP_ALLOCA; o.x = (uint32_t)DL->getTypeAllocSize(al->getAllocatedType()); o.a = opnd(al->getArraySize()); }
            else if (auto *ge = dyn_cast<GetElementPtrInst>(&I)) {
                Gep g; g.off = 0;
                for (auto ti = gep_type_begin(ge), te = gep_type_end(ge); ti != te; ++ti) {
                    Value *ix = ti.getOperand();
                    if (StructType *sty = ti.getStructTypeOrNull()) { g.off += DL->getStructLayout(sty)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue()); }
                    else { int64_t sc = (int64_t)DL->getTypeAllocSize(ti.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) g.off += sc * ci->getSExtValue(); else g.idx.emplace_back(opnd(ix), sc, widthOf(ix->getType())); }
                }
                o.op = OP_GEP; o.a = opnd(ge->getPointerOperand()); o.x = (uint32_t)fn->geps.size(); fn->geps.push_back(g);
            } else if (auto *br = dyn_cast<BranchInst>(&I)) {
                if (br->isConditional()) { o.op = OP_CONDBR; o.a = opnd(br->getCondition()); o.b = edge(&BB, br->getSuccessor(0)); o.c = edge(&BB, br->getSuccessor(1)); }
                else { o.op = OP_BR; o.a = edge(&BB, br->getSuccessor(0)); }
            } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
                SwitchInfo si; o.op = OP_SWITCH; o.a = opnd(sw->getCondition()); o.w = widthOf(sw->getCondition()->getType());
                std::map<const BasicBlock *, int> em;
                auto ed = [&](const BasicBlock *t) { auto it = em.find(t); if (it != em.end()) return it->second; return em[t] = edge(&BB, t); };
                for (auto &c : sw->cases()) si.cases.push_back({ c.getCaseValue()->getZExtValue(), ed(c.getCaseSuccessor()) });
                si.def = ed(sw->getDefaultDest()); o.x = (uint32_t)fn->sws.size(); fn->sws.push_back(si);
            } else if (auto *rt = dyn_cast<ReturnInst>(&I)) { o.op = OP_RET; o.n = 0; if (rt->getReturnValue()) { o.a = opnd(rt->getReturnValue()); o.n = slotsOf(rt->getReturnValue()->getType()); } }
            else if (isa<UnreachableInst>(I)) o.op = OP_UNREACHABLE;
            else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { Type *t; unsigned s = fieldSlot(ev->getAggregateOperand()->getType(), ev->getIndices(), &t); o.op = OP_EXTRACTV; o.a = slotOp(opnd(ev->getAggregateOperand()), s); o.n = slotsOf(t); }
            else if (auto *iv = dyn_cast<InsertValueInst>(&I)) { Type *t; unsigned s = fieldSlot(iv->getAggregateOperand()->getType(), iv->getIndices(), &t); o.op = OP_INSERTV; o.a = opnd(iv->getAggregateOperand()); o.b = opnd(iv->getInsertedValueOperand()); o.c = s; o.n = slotsOf(iv->getType()); o.x = slotsOf(t); }
            else if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
                LPad l; l.cleanup = lp->isCleanup();
                for (unsigned i = 0; i < lp->getNumClauses(); ++i) { if (lp->isCatch(i)) { Constant *c = lp->getClause(i); std::vector<Val> v; constVals(c, v); l.clauses.push_back(v[0].c); } else l.clauses.push_back(0); }
                o.op = OP_LANDINGPAD; o.x = (uint32_t)fn->lpads.size(); fn->lpads.push_back(l);
            } else if (isa<ResumeInst>(I)) { o.op = OP_RESUME; o.a = opnd(I.getOperand(0)); }
            else if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) { o.op = OP_RMW; o.sub = rm->getOperation(); o.w = widthOf(I.getType()); o.a = opnd(rm->getPointerOperand()); o.b = opnd(rm->getValOperand()); }
            else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) { o.op = OP_CMPXCHG; o.w = widthOf(cx->getCompareOperand()->getType()); o.a = opnd(cx->getPointerOperand()); o.b = opnd(cx->getCompareOperand()); o.c = opnd(cx->getNewValOperand()); }
            else if (isa<FenceInst>(I)) o.op = OP_NOP;
            else if (auto *cb = dyn_cast<CallBase>(&I)) {
                CallInfo ci; ci.callee = -1; ci.iid = Intrinsic::not_intrinsic; ci.calleeOp = 0; ci.normal = ci.unwind = -1; ci.nret = slotsOf(I.getType()); ci.retw = widthOf(I.getType());
                Value *cv_ = cb->getCalledOperand()->stripPointerCasts();
                if (auto *ga = dyn_cast<GlobalAlias>(cv_)) cv_ = const_cast<GlobalObject *>(ga->getAliaseeObject());
                if (auto *cf = dyn_cast<Function>(cv_)) { ci.iid = cf->getIntrinsicID(); ci.callee = g_fnIdx.at(cf); }
                else if (isa<InlineAsm>(cv_)) { ci.callee = -2; }
                else ci.calleeOp = opnd(cv_);
                bool skip = ci.iid == Intrinsic::dbg_declare || ci.iid == Intrinsic::dbg_value || ci.iid == Intrinsic::dbg_label || ci.iid == Intrinsic::experimental_noalias_scope_decl || ci.iid == Intrinsic::lifetime_start || ci.iid == Intrinsic::lifetime_end || ci.iid == Intrinsic::assume || ci.iid == Intrinsic::invariant_start || ci.iid == Intrinsic::invariant_end || ci.iid == Intrinsic::prefetch || ci.iid == Intrinsic::donothing;
                if (skip) { o.op = OP_NOP; }
                else {
                    for (unsigned i = 0; i < cb->arg_size(); ++i) {
                        Value *av = cb->getArgOperand(i);
                        if (av->getType()->isMetadataTy()) { ci.args.push_back(poolOf(ConstantInt::get(Type::getInt32Ty(M->getContext()), 0))); ci.byval.push_back(0); ci.argw.push_back(32); continue; }
                        ci.args.push_back(opnd(av)); ci.byval.push_back(cb->isByValArgument(i) ? (uint32_t)DL->getTypeAllocSize(cb->getParamByValType(i)) : 0);
                        ci.argw.push_back(widthOf(av->getType()));
                    }
                    if (auto *iv = dyn_cast<InvokeInst>(cb)) { ci.normal = edge(&BB, iv->getNormalDest()); ci.unwind = edge(&BB, iv->getUnwindDest()); }
                    o.op = OP_CALL; o.x = (uint32_t)fn->calls.size(); fn->calls.push_back(ci);
                    if (ci.callee == -2) { // inline asm: only empty barriers
                        auto *ia = cast<InlineAsm>(cv_); o.op = ia->getAsmString().empty() ? OP_NOP : OP_UNSUPPORTED; }
                }
            }
            } catch (BadConst &b) { o.op = OP_UNSUPPORTED; }
            fn->ops.push_back(o);
        }
    }
    for (auto &fx : fixes) {
        Edge &e = fn->edges[fx.edge]; e.pc = bbpc[fx.to];
        for (auto &I : *fx.to) {
            auto *ph = dyn_cast<PHINode>(&I); if (!ph) break;
            Value *v = ph->getIncomingValueForBlock(fx.from); int src; 
            src = opnd(v); unsigned k = slotsOf(ph->getType());
            for (unsigned j = 0; j < k; ++j) e.cp.push_back({ slot[ph] + (int)j, slotOp(src, j) });
        }
    }
}

// ---------------------------------------------------------------- execution
static inline const Val &R(int op) { return op >= 0 ? S->stk[S->fr.back().base + op] : g_pool[-1 - op]; }
static inline void W(int dst, const Val &v) { S->stk[S->fr.back().base + dst] = v; }
static void takeEdge(State &s, int ei) {
    Frame &f = s.fr.back(); Edge &e = f.fn->edges[ei];
    if (!e.cp.empty()) {
        Val tmp[64]; size_t n = e.cp.size();
        if (n > 64) { std::vector<Val> t(n); for (size_t i = 0; i < n; ++i) { int sOp = e.cp[i].second; t[i] = sOp >= 0 ? s.stk[f.base + sOp] : g_pool[-1 - sOp]; } for (size_t i = 0; i < n; ++i) s.stk[f.base + e.cp[i].first] = t[i]; }
        else { for (size_t i = 0; i < n; ++i) { int sOp = e.cp[i].second; tmp[i] = sOp >= 0 ? s.stk[f.base + sOp] : g_pool[-1 - sOp]; } for (size_t i = 0; i < n; ++i) s.stk[f.base + e.cp[i].first] = tmp[i]; }
    }
    f.pc = e.pc;
}
static void pushFrame(State &s, Fn *fn) {
    if (!fn->decoded) decode(fn);
    if (fn->idx < 65536) SH->fnExec[fn->idx] = 1;
    Frame f; f.fn = fn; f.pc = 0; f.base = (int)s.stk.size(); f.callOpDst = -1; s.stk.resize(s.stk.size() + fn->nregs, cv(0)); s.fr.push_back(std::move(f));
    if (s.fr.size() > optMaxDepth) pathError("stack overflow", "");
}
static void popFrame(State &s) { Frame &f = s.fr.back(); for (uint32_t id : f.allocas) s.mem.freeId(id); s.stk.resize(f.base); s.fr.pop_back(); }
static void finishCall(State &s) { // after the callee returned: continue caller
    Frame &f = s.fr.back(); Op &o = f.fn->ops[f.pc]; CallInfo &ci = f.fn->calls[o.x];
    if (ci.normal >= 0) takeEdge(s, ci.normal); else f.pc++;
}
static bool tiMatch(uint64_t thrown, uint64_t want, int depth = 0) {
    if (thrown == want) return true;
    if (!thrown || depth > 10) return false;
    Obj *o = S->mem.get((uint32_t)(thrown >> 32)); if (!o || o == FREED || o->size < 24) return false;
    auto rd = [&](uint32_t off) { uint64_t v; memcpy(&v, o->d + (uint32_t)thrown + off, 8); return v; };
    uint64_t vp = rd(0);
    if (vp == VT_SI + 16) return tiMatch(rd(16), want, depth + 1);
    if (vp == VT_VMI + 16) { uint32_t cnt; memcpy(&cnt, o->d + 20, 4); for (uint32_t i = 0; i < cnt; ++i) if (tiMatch(rd(24 + 16 * i), want, depth + 1)) return true; }
    return false;
}
static uint64_t tiId(uint64_t ti) { return ti ? (ti >> 32) : 1; }
static std::string tiName(uint64_t ti) { auto it = g_nameByAddr.find(ti); return it == g_nameByAddr.end() ? "?" : it->second; }
static void doUnwind(State &s, uint64_t addr, uint64_t ti) {
    while (!s.fr.empty()) {
        Frame &f = s.fr.back(); Op &o = f.fn->ops[f.pc];
        if (o.op == OP_CALL) {
            CallInfo &ci = f.fn->calls[o.x];
            if (ci.unwind >= 0) {
                int tpc = f.fn->edges[ci.unwind].pc; Op &lo = f.fn->ops[tpc];
                if (lo.op == OP_LANDINGPAD) {
                    LPad &l = f.fn->lpads[lo.x]; uint64_t sel = 0; bool enter = l.cleanup;
                    for (uint64_t c : l.clauses) if (!c || tiMatch(ti, c)) { sel = tiId(c); enter = true; break; }
                    if (enter) { s.lpExn = addr; s.lpSel = sel; takeEdge(s, ci.unwind); return; }
                }
            }
        }
        if (s.fr.size() == 1) break;
        popFrame(s);
    }
    pathError("uncaught exception", tiName(ti));
}
static Exn *findExn(State &s, uint64_t a) { for (size_t i = s.exns.size(); i-- > 0;) if (s.exns[i].addr == a) return &s.exns[i]; return nullptr; }
static double asF(uint64_t b, unsigned w) { if (w == 32) { float f; uint32_t x = (uint32_t)b; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &b, 8); return d; }
static uint64_t fromF(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t b; memcpy(&b, &d, 8); return b; }

static void runCall(Op &o);
static E loadE8(uint64_t a) { Obj *ob = access(a, 1, "read"); Val v = loadBytes(ob, (uint32_t)a, 8); return toE(v, 8); }

static void dumpE(E e, std::string &o) {
    static const char *n[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","zext","sext","extract","concat","ite"};
    if (o.size() > 6000) return;
    if (e->k == K_CONST) { o += std::to_string(e->c) + "'" + std::to_string(e->w); return; }
    if (e->k == K_SYM) { o += "v" + std::to_string(e->c); return; }
    o += std::string("(") + n[e->k] + (e->k == K_EXTRACT ? ":" + std::to_string(e->aux) : "") + "'" + std::to_string(e->w);
    for (E x : {e->a, e->b, e->d}) if (x) { o += " "; dumpE(x, o); }
    o += ")";
}
static void assertCond(E c0, const std::string &label, const std::string &detail) {
    LabelStat *ls = labelStat(false, label); ls->a++;
    E c = subst(*S, c0);
    if (isC(c, 1)) return;
    if (!isC(c) && getenv("JOMSYM_DUMP")) { std::string o; dumpE(c, o); fprintf(stderr, "ASSERT %s\n  %s\n", label.c_str(), o.c_str()); }
    std::vector<uint64_t> m;
    int r = isC(c) ? SAT : query(*S, xNot(c), &m);
    if (!isC(c)) ls->b++;
    if (r == UNSAT) return;
    if (r == UNK) { inconclusive("solver returned unknown on assertion " + label); return; }
    violation(*S, isC(c) ? S->model : m, label, detail);
    if (isC(c)) { endPath(*S, true); throw EndPath(); }
    std::vector<uint64_t> m2; int r2 = query(*S, c, &m2);
    if (r2 != SAT) { endPath(*S, true); throw EndPath(); }
    S->model = m2; addConstraint(*S, c);
}

static void handleCall(int h, CallInfo &ci, Op &o) {
    auto A = [&](int i) -> Val { return R(ci.args[i]); };
    auto AC = [&](int i) -> uint64_t { return conc(R(ci.args[i]), 64); };
    auto ret = [&](const Val &v) { if (o.dst >= 0) W(o.dst, v); finishCall(*S); };
    switch (h) {
    case H_MALLOC: { uint64_t n = AC(0); ret(cv(allocMem(n, OF_HEAP, 0xAA))); return; }
    case H_NEW: { uint64_t n = AC(0); ret(cv(allocMem(n, OF_HEAP | OF_NEW, 0xAA))); return; }
    case H_NEWA: { uint64_t n = AC(0); ret(cv(allocMem(n, OF_HEAP | OF_NEWARR, 0xAA))); return; }
    case H_CALLOC: { uint64_t n = AC(0), m = AC(1); ret(cv(allocMem(n * m, OF_HEAP, 0))); return; }
    case H_REALLOC: {
        uint64_t p = AC(0), n = AC(1);
        if (!p) { ret(cv(allocMem(n, OF_HEAP, 0xAA))); return; }
        Obj *old = access(p, 0, "realloc"); uint64_t q = allocMem(n, OF_HEAP, 0xAA); memCopy(q, p, std::min<uint64_t>(n, old->size)); freeMem(p, 0); ret(cv(q)); return; }
    case H_FREE: freeMem(AC(0), 0); ret(cv(0)); return;
    case H_DEL: freeMem(AC(0), OF_NEW); ret(cv(0)); return;
    case H_DELA: freeMem(AC(0), OF_NEWARR); ret(cv(0)); return;
    case H_MEMCPY: { uint64_t d = AC(0), s = AC(1), n = AC(2); memCopy(d, s, n); ret(cv(d)); return; }
    case H_MEMSET: { uint64_t d = AC(0), n = AC(2); Val v = A(1);
        if (n) { Obj *ob = accessW(d, n, "memset");
            if (!v.e) { memset(ob->d + (uint32_t)d, (int)v.c, n); if (ob->s) memset(ob->s + (uint32_t)d, 0, n * sizeof(E)); }
            else { Val b = fromE(xExtract(v.e, 0, 8)); for (uint64_t i = 0; i < n; ++i) storeBytes(ob, (uint32_t)d + i, 8, b); } }
        ret(cv(d)); return; }
    case H_BCMP: { uint64_t a = AC(0), b = AC(1), n = AC(2); E r = xConst(1, 1);
        for (uint64_t i = 0; i < n; ++i) { r = xBin(K_AND, r, xEq(loadE8(a + i), loadE8(b + i))); if (isC(r, 0)) break; }
        ret(fromE(xIte(r, xConst(0, 32), xConst(1, 32)))); return; }
    case H_MEMCMP: { uint64_t a = AC(0), b = AC(1), n = AC(2); E r = xConst(0, 32);
        uint64_t lim = n; for (uint64_t i = 0; i < n; ++i) { E x = loadE8(a + i), y = loadE8(b + i); if (isC(x) && isC(y) && x->c != y->c) { lim = i + 1; break; } }
        for (uint64_t i = lim; i-- > 0;) { E x = loadE8(a + i), y = loadE8(b + i); r = xIte(xEq(x, y), r, xIte(xBin(K_ULT, x, y), xConst(~0ULL, 32), xConst(1, 32))); }
        ret(fromE(r)); return; }
    case H_CXA_ALLOC: { uint64_t n = AC(0); uint64_t p = allocMem(n, OF_HEAP, 0xAA); S->exns.push_back({ p, 0, 0, 0, false }); ret(cv(p)); return; }
    case H_CXA_FREE: ret(cv(0)); return;
    case H_CXA_THROW: { uint64_t p = AC(0), ti = AC(1), d = AC(2); Exn *e = findExn(*S, p); e->ti = ti; e->dtor = d; doUnwind(*S, p, ti); return; }
    case H_CXA_BEGIN: { uint64_t p = AC(0); Exn *e = findExn(*S, p); if (e) { e->handlers++; S->caught.push_back(p); } ret(cv(p)); return; }
    case H_CXA_GETPTR: ret(A(0)); return;
    case H_CXA_END: {
        if (S->caught.empty()) { ret(cv(0)); return; }
        uint64_t p = S->caught.back(); S->caught.pop_back(); Exn *e = findExn(*S, p); uint64_t dtor = 0;
        if (e) { e->handlers--; if (e->handlers <= 0) { if (e->rethrown) e->rethrown = false; else { dtor = e->dtor; for (size_t i = 0; i < S->exns.size(); ++i) if (S->exns[i].addr == p) { S->exns.erase(S->exns.begin() + i); break; } } } }
        if (dtor) { Fn *fn = g_fns[(dtor >> 32) - FN_BASE]; if (!fn->decl) { pushFrame(*S, fn); S->stk[S->fr.back().base] = cv(p); S->fr.back().callOpDst = -2; return; } }
        ret(cv(0)); return; }
    case H_CXA_RETHROW: { if (S->caught.empty()) pathError("terminate called", "rethrow without exception"); uint64_t p = S->caught.back(); Exn *e = findExn(*S, p); e->rethrown = true; doUnwind(*S, p, e->ti); return; }
    case H_TERMINATE: pathError("terminate called", "");
    case H_ABORT: pathError("abort called", "");
    case H_ATEXIT: ret(cv(0)); return;
    case H_GUARD_ACQ: { uint64_t g = AC(0); Obj *ob = access(g, 1, "guard"); if (ob->d[(uint32_t)g]) { ret(cv(0)); return; } ret(cv(1)); return; }
    case H_GUARD_REL: { uint64_t g = AC(0); accessW(g, 1, "guard")->d[(uint32_t)g] = 1; ret(cv(0)); return; }
    case H_GUARD_ABORT: ret(cv(0)); return;
    case H_SYM_NEW: {
        std::string nm = cstr(AC(0)); unsigned w = (unsigned)AC(1); int idx = (int)S->vars.size();
        for (char &c : nm) if (c == ' ' || c == '\n') c = '_';
        S->vars.push_back({ nm, (uint8_t)w }); S->model.resize(idx + 1, 0); S->known.resize(idx + 1, Val{ 0, nullptr }); S->model[idx] = 0;
        ret(fromE(xZext(xSym(idx, w), 64))); return; }
    case H_SYM_ASSUME: {
        Val v = A(0); if (!v.e) { if (!(v.c & 0xffffffff)) { endPath(*S, false); throw EndPath(); } ret(cv(0)); return; }
        E c = subst(*S, xNot(xEq(v.e, xConst(0, v.e->w)))); if (isC(c)) { if (!c->c) { endPath(*S, false); throw EndPath(); } ret(cv(0)); return; }
        if (!evalE(c, S->model)) { std::vector<uint64_t> m; int r = query(*S, c, &m); if (r == UNSAT) { endPath(*S, false); throw EndPath(); } if (r == UNK) { inconclusive("unknown on assume"); endPath(*S, false); throw EndPath(); } S->model = m; }
        addConstraint(*S, c); ret(cv(0)); return; }
    case H_SYM_ASSERT: {
        Val v = A(0); std::string lb = cstr(AC(1)); E e = toE(v, ci.argw[0]); assertCond(xNot(xEq(e, xConst(0, e->w))), lb, stackStr(*S)); ret(cv(0)); return; }
    case H_SYM_FAIL: { pathError(cstr(AC(0)), ""); }
    case H_SYM_REACH: labelStat(true, cstr(AC(0)))->a++; ret(cv(0)); return;
    case H_SYM_OBS: { Obs ob; ob.name = cstr(AC(0)); ob.isInt = false; ob.w = 8; uint64_t p = AC(1), n = AC(2); for (uint64_t i = 0; i < n; ++i) { Obj *q = access(p + i, 1, "observe"); ob.v.push_back(loadBytes(q, (uint32_t)(p + i), 8)); } S->obs.push_back(ob); ret(cv(0)); return; }
    case H_SYM_OBSI: { Obs ob; ob.name = cstr(AC(0)); ob.isInt = true; ob.w = 64; ob.v.push_back(A(1)); S->obs.push_back(ob); ret(cv(0)); return; }
    case H_SYM_CONC: { uint64_t v = AC(0); ret(cv(v)); return; }
    case H_SYM_ISCONST: { Val v = A(0); ret(cv(!v.e || isC(subst(*S, v.e)))); return; }
    case H_SYM_EXIT: { uint64_t code = AC(0) & 0xffffffff; bool have = false; for (Frame &f : S->fr) if (f.fn->name == "rt_run") have = true;
        if (!have) pathError("exit() outside rt_run", "");
        while (S->fr.back().fn->name != "rt_run") popFrame(*S);
        int dst = S->fr.back().callOpDst; popFrame(*S); if (dst >= 0) W(dst, cv(code)); finishCall(*S); return; }
    case H_SYM_END: endPath(*S, false); pathDone(*S); throw EndPath();
    case H_SYM_ISSYM: ret(cv(1)); return;
    case H_SYM_INTERNAL: unsupported("model limitation: " + cstr(AC(0)));
    case H_SYM_PRINT: { if (optVerbose) { uint64_t p = AC(0), n = AC(1); std::string t; for (uint64_t i = 0; i < n; ++i) { E e = loadE8(p + i); char c = (char)evalE(e, S->model); if (!isC(e)) t += "~"; if (c) t += c; } fprintf(stderr, "[print] %s\n", t.c_str()); } ret(cv(0)); return; }
    }
    unsupported("handler");
}

static void intrinsic(CallInfo &ci, Op &o) {
    auto A = [&](int i) -> Val { return R(ci.args[i]); };
    auto AC = [&](int i) -> uint64_t { return conc(R(ci.args[i]), 64); };
    auto ret = [&](const Val &v) { if (o.dst >= 0) W(o.dst, v); finishCall(*S); };
    unsigned w = ci.retw;
    switch (ci.iid) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t d = AC(0), s = AC(1), n = AC(2); memCopy(d, s, n); ret(cv(0)); return; }
    case Intrinsic::memset: case Intrinsic::memset_inline: handleCall(H_MEMSET, ci, o); return;
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
        E a = toE(A(0), w), b = toE(A(1), w); bool sg = ci.iid == Intrinsic::smax || ci.iid == Intrinsic::smin, mx = ci.iid == Intrinsic::umax || ci.iid == Intrinsic::smax;
        E lt = xBin(sg ? K_SLT : K_ULT, a, b); ret(fromE(mx ? xIte(lt, b, a) : xIte(lt, a, b))); return; }
    case Intrinsic::abs: { E a = toE(A(0), w); ret(fromE(xIte(xBin(K_SLT, a, xConst(0, w)), xBin(K_SUB, xConst(0, w), a), a))); return; }
    case Intrinsic::bswap: { E a = toE(A(0), w); E r = nullptr; for (unsigned i = 0; i < w / 8; ++i) { E b = xExtract(a, i * 8, 8); r = r ? xConcat(r, b) : b; } ret(fromE(r)); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: { E a = toE(A(0), w), b = toE(A(1), w); uint64_t sh = AC(2) % w; if (ci.iid == Intrinsic::fshr) sh = sh ? w - sh : 0; 
        if (ci.iid == Intrinsic::fshr && sh == 0) { ret(fromE(b)); return; } if (sh == 0) { ret(fromE(a)); return; }
        ret(fromE(xBin(K_OR, xBin(K_SHL, a, xConst(sh, w)), xBin(K_LSHR, b, xConst(w - sh, w))))); return; }
    case Intrinsic::ctpop: { E a = toE(A(0), w); E r = xConst(0, w); for (unsigned i = 0; i < w; ++i) r = xBin(K_ADD, r, xZext(xExtract(a, i, 1), w)); ret(fromE(r)); return; }
    case Intrinsic::ctlz: { E a = toE(A(0), w); E r = xConst(w, w); for (unsigned i = 0; i < w; ++i) r = xIte(xEq(xExtract(a, i, 1), xConst(1, 1)), xConst(w - 1 - i, w), r); ret(fromE(r)); return; }
    case Intrinsic::cttz: { E a = toE(A(0), w); E r = xConst(w, w); for (unsigned i = w; i-- > 0;) r = xIte(xEq(xExtract(a, i, 1), xConst(1, 1)), xConst(i, w), r); ret(fromE(r)); return; }
    case Intrinsic::usub_sat: { E a = toE(A(0), w), b = toE(A(1), w); ret(fromE(xIte(xBin(K_ULT, a, b), xConst(0, w), xBin(K_SUB, a, b)))); return; }
    case Intrinsic::uadd_sat: { E a = toE(A(0), w), b = toE(A(1), w); E s = xBin(K_ADD, a, b); ret(fromE(xIte(xBin(K_ULT, s, a), xConst(~0ULL, w), s))); return; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned aw = ci.argw[0]; E a = toE(A(0), aw), b = toE(A(1), aw), r, ov;
        switch (ci.iid) {
        case Intrinsic::uadd_with_overflow: r = xBin(K_ADD, a, b); ov = xBin(K_ULT, r, a); break;
        case Intrinsic::usub_with_overflow: r = xBin(K_SUB, a, b); ov = xBin(K_ULT, a, b); break;
        case Intrinsic::sadd_with_overflow: { r = xBin(K_ADD, a, b); E z = xConst(0, aw); E an = xBin(K_SLT, a, z), bn = xBin(K_SLT, b, z), rn = xBin(K_SLT, r, z); ov = xBin(K_AND, xEq(an, bn), xNot(xEq(an, rn))); break; }
        case Intrinsic::ssub_with_overflow: { r = xBin(K_SUB, a, b); E z = xConst(0, aw); E an = xBin(K_SLT, a, z), bn = xBin(K_SLT, b, z), rn = xBin(K_SLT, r, z); ov = xBin(K_AND, xNot(xEq(an, bn)), xNot(xEq(an, rn))); break; }
        default: {
            if (aw <= 32) { bool sg = ci.iid == Intrinsic::smul_with_overflow; E x = sg ? xSext(a, 2 * aw) : xZext(a, 2 * aw), y = sg ? xSext(b, 2 * aw) : xZext(b, 2 * aw); E p = xBin(K_MUL, x, y); r = xExtract(p, 0, aw); ov = xNot(xEq(p, sg ? xSext(r, 2 * aw) : xZext(r, 2 * aw))); }
            else { uint64_t x = AC(0), y = AC(1); if (ci.iid == Intrinsic::umul_with_overflow) { uint64_t p; ov = xConst(__builtin_mul_overflow(x, y, &p), 1); r = xConst(p, 64); } else { int64_t p; ov = xConst(__builtin_mul_overflow((int64_t)x, (int64_t)y, &p), 1); r = xConst((uint64_t)p, 64); } }
        } }
        W(o.dst, fromE(r)); W(o.dst + 1, fromE(ov)); finishCall(*S); return; }
    case Intrinsic::eh_typeid_for: ret(cv(tiId(AC(0)))); return;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: ret(A(0)); return;
    case Intrinsic::objectsize: ret(cv(~0ULL)); return;
    case Intrinsic::is_constant: ret(cv(0)); return;
    case Intrinsic::stacksave: ret(cv(0)); return;
    case Intrinsic::stackrestore: ret(cv(0)); return;
    case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: unsupported("varargs");
    case Intrinsic::trap: case Intrinsic::ubsantrap: pathError("trap", "");
    case Intrinsic::load_relative: { uint64_t p = AC(0), off = AC(1); Val v = memLoad(cv(p + off), 32); ret(cv(p + (uint64_t)sx(v.c, 32))); return; }
    default: unsupported(std::string("intrinsic ") + Intrinsic::getBaseName(ci.iid).str());
    }
}

static void runCall(Op &o) {
    Frame &f = S->fr.back(); CallInfo &ci = f.fn->calls[o.x];
    if (ci.iid != Intrinsic::not_intrinsic) { intrinsic(ci, o); return; }
    Fn *fn;
    if (ci.callee >= 0) fn = g_fns[ci.callee];
    else {
        uint64_t t = conc(R(ci.calleeOp), 64); uint64_t id = t >> 32;
        if (id < FN_BASE || id - FN_BASE >= g_fns.size() || (uint32_t)t) pathError("memory: call through bad function pointer", std::to_string(t));
        fn = g_fns[id - FN_BASE];
    }
    if (fn->handler >= 0) { handleCall(fn->handler, ci, o); return; }
    if (fn->decl) unsupported("call of undefined function " + fn->name);
    // gather args before pushing
    Val args[64]; int na = 0;
    if (!fn->decoded) decode(fn);
    size_t np = fn->argSlot.size();
    for (size_t i = 0; i < np && i < ci.args.size(); ++i) {
        unsigned k = (i + 1 < np ? fn->argSlot[i + 1] : -1) - fn->argSlot[i]; (void)k;
        if (ci.byval[i]) { uint64_t src = conc(R(ci.args[i]), 64); uint64_t c = allocMem(ci.byval[i], OF_STACK, 0); memCopy(c, src, ci.byval[i]); args[na++] = cv(c); }
        else args[na++] = R(ci.args[i]);
    }
    // aggregate arguments occupy several slots: only scalars are expected in practice
    pushFrame(*S, fn);
    for (int i = 0; i < na; ++i) S->stk[S->fr.back().base + fn->argSlot[i]] = args[i];
    S->fr.back().callOpDst = o.dst;
}

static void step() {
    Frame &f = S->fr.back(); Op &o = f.fn->ops[f.pc];
    switch (o.op) {
    case OP_BIN: {
        const Val &a = R(o.a), &b = R(o.b); Kind k = (Kind)o.sub;
        if (k >= K_UDIV && k <= K_SREM) {
            if (!b.e) { if (!b.c) pathError("division by zero", ""); }
            else { bool fk; E z = xEq(b.e, xConst(0, o.w)); if (decide(z, [](State &) {}, fk)) pathError("division by zero", ""); }
            if (k == K_SDIV || k == K_SREM) {
                E ov = xBin(K_AND, xEq(toE(a, o.w), xConst(1ULL << (o.w - 1), o.w)), xEq(toE(b, o.w), xConst(~0ULL, o.w)));
                bool fk; if (decide(ov, [](State &) {}, fk)) pathError("division overflow", "");
            }
        }
        if (!a.e && !b.e) {
            uint64_t bc = b.c; if ((k == K_SHL || k == K_LSHR || k == K_ASHR) && bc >= o.w && (o.w == 32 || o.w == 64)) bc &= o.w - 1; // as the hardware does
            W(o.dst, cv(foldBin(k, a.c, bc, o.w)));
        } else {
            E be = toE(b, o.w); if ((k == K_SHL || k == K_LSHR || k == K_ASHR) && (o.w == 32 || o.w == 64)) be = xBin(K_AND, be, xConst(o.w - 1, o.w));
            W(o.dst, fromE(xBin(k, toE(a, o.w), be)));
        }
        f.pc++; return; }
    case OP_ICMP: {
        const Val &a = R(o.a), &b = R(o.b); unsigned w = o.w;
        if (!a.e && !b.e) {
            bool r; int64_t x = sx(a.c, w), y = sx(b.c, w);
            switch (o.sub) {
            case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break;
            case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break; case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break;
            case CmpInst::ICMP_SGT: r = x > y; break; case CmpInst::ICMP_SGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = x < y; break; default: r = x <= y; break;
            }
            W(o.dst, cv(r));
        } else {
            E x = toE(a, w), y = toE(b, w), r;
            switch (o.sub) {
            case CmpInst::ICMP_EQ: r = xEq(x, y); break; case CmpInst::ICMP_NE: r = xNot(xEq(x, y)); break;
            case CmpInst::ICMP_UGT: r = xBin(K_ULT, y, x); break; case CmpInst::ICMP_UGE: r = xBin(K_ULE, y, x); break; case CmpInst::ICMP_ULT: r = xBin(K_ULT, x, y); break; case CmpInst::ICMP_ULE: r = xBin(K_ULE, x, y); break;
            case CmpInst::ICMP_SGT: r = xBin(K_SLT, y, x); break; case CmpInst::ICMP_SGE: r = xBin(K_SLE, y, x); break; case CmpInst::ICMP_SLT: r = xBin(K_SLT, x, y); break; default: r = xBin(K_SLE, x, y); break;
            }
            W(o.dst, fromE(r));
        }
        f.pc++; return; }
    case OP_CAST_Z: { const Val &a = R(o.a); W(o.dst, a.e ? fromE(xZext(a.e, o.w)) : a); f.pc++; return; }
    case OP_CAST_S: { const Val &a = R(o.a); W(o.dst, a.e ? fromE(xSext(a.e, o.w)) : cv((uint64_t)sx(a.c, o.w2) & maskw(o.w))); f.pc++; return; }
    case OP_TRUNC: { const Val &a = R(o.a); W(o.dst, a.e ? fromE(xExtract(a.e, 0, o.w)) : cv(a.c & maskw(o.w))); f.pc++; return; }
    case OP_COPY: W(o.dst, R(o.a)); f.pc++; return;
    case OP_NOP: f.pc++; return;
    case OP_SELECT: {
        const Val &c = R(o.a);
        if (!c.e) { int s = c.c ? o.b : o.c; for (int i = 0; i < o.n; ++i) W(o.dst + i, R(slotOp(s, i))); f.pc++; return; }
        if (o.n == 1 && o.w) {
            Val t = R(o.b), g = R(o.c);
            W(o.dst, fromE(xIte(c.e, toE(t, o.w), toE(g, o.w)))); f.pc++; return; }
        uint64_t v = forkValue(c.e); int s = v ? o.b : o.c; for (int i = 0; i < o.n; ++i) W(o.dst + i, R(slotOp(s, i))); f.pc++; return; }
    case OP_LOAD: { Val v = memLoad(R(o.a), o.w); W(o.dst, v); S->fr.back().pc++; return; }
    case OP_STORE: { memStore(R(o.a), o.w, R(o.b)); S->fr.back().pc++; return; }
    case OP_ALLOCA: { uint64_t n = conc(R(o.a), 64); uint64_t a = allocMem(n * o.x, OF_STACK, 0xAA); f.allocas.push_back((uint32_t)(a >> 32)); W(o.dst, cv(a)); f.pc++; return; }
    case OP_GEP: {
        const Gep &g = f.fn->geps[o.x]; const Val &b = R(o.a);
        bool sym = b.e; uint64_t c = b.c + (uint64_t)g.off;
        if (!sym) for (auto &t : g.idx) if (R(std::get<0>(t)).e) { sym = true; break; }
        if (!sym) { for (auto &t : g.idx) c += (uint64_t)(sx(R(std::get<0>(t)).c, std::get<2>(t)) * std::get<1>(t)); W(o.dst, cv(c)); f.pc++; return; }
        E e = b.e ? xBin(K_ADD, b.e, xConst((uint64_t)g.off, 64)) : xConst(c, 64);
        for (auto &t : g.idx) { Val v = R(std::get<0>(t)); E x = xSext(toE(v, std::get<2>(t)), 64); e = xBin(K_ADD, e, xBin(K_MUL, x, xConst((uint64_t)std::get<1>(t), 64))); }
        W(o.dst, fromE(e)); f.pc++; return; }
    case OP_BR: takeEdge(*S, o.a); return;
    case OP_CONDBR: {
        const Val &c = R(o.a);
        if (!c.e) { takeEdge(*S, c.c ? o.b : o.c); return; }
        bool fk; int eb = o.b, ec = o.c; bool cur = evalE(c.e, S->model);
        bool v = decide(c.e, [&](State &os) { takeEdge(os, cur ? ec : eb); }, fk);
        takeEdge(*S, v ? eb : ec); return; }
    case OP_SWITCH: {
        const Val &c = R(o.a); const SwitchInfo &si = f.fn->sws[o.x];
        if (!c.e) { int e = si.def; for (auto &k : si.cases) if (k.first == c.c) { e = k.second; break; } takeEdge(*S, e); return; }
        E x = subst(*S, c.e); if (isC(x)) { int e = si.def; for (auto &k : si.cases) if (k.first == x->c) { e = k.second; break; } takeEdge(*S, e); return; }
        // group by edge
        std::map<int, E> grp; E any = xConst(0, 1);
        for (auto &k : si.cases) { E q = xEq(x, xConst(k.first, o.w)); auto it = grp.find(k.second); if (it == grp.end()) grp[k.second] = q; else it->second = xBin(K_OR, it->second, q); any = xBin(K_OR, any, q); }
        auto dit = grp.find(si.def); E dcond = xNot(any); if (dit != grp.end()) dcond = xBin(K_OR, dcond, dit->second); grp[si.def] = dcond;
        int cur = -1; for (auto &g : grp) if (evalE(g.second, S->model)) { cur = g.first; break; }
        for (auto &g : grp) { if (g.first == cur) continue; std::vector<uint64_t> m; int r = query(*S, g.second, &m); if (r == UNSAT) continue; if (r == UNK) { inconclusive("solver unknown on switch"); m = S->model; }
            State *os = cloneState(*S); os->model = m; addConstraint(*os, g.second); os->pathHash = mix(os->pathHash, 7 + g.first); takeEdge(*os, g.first); g_work.push_back(os); }
        addConstraint(*S, grp[cur]); S->pathHash = mix(S->pathHash, 7 + cur); takeEdge(*S, cur); return; }
    case OP_CALL: runCall(o); return;
    case OP_RET: {
        Val rv[16]; int n = o.n; if (n > 16) unsupported("large return"); for (int i = 0; i < n; ++i) rv[i] = R(slotOp(o.a, i));
        int dst = f.callOpDst; popFrame(*S);
        if (S->fr.empty()) { S->dead = true; if (g_inMain) pathDone(*S); return; }
        if (dst >= 0) for (int i = 0; i < n; ++i) W(dst + i, rv[i]);
        finishCall(*S); return; }
    case OP_EXTRACTV: for (int i = 0; i < o.n; ++i) W(o.dst + i, R(slotOp(o.a, i))); f.pc++; return;
    case OP_INSERTV: { for (int i = 0; i < o.n; ++i) { Val v = (i >= o.c && i < o.c + (int)o.x) ? R(slotOp(o.b, i - o.c)) : R(slotOp(o.a, i)); W(o.dst + i, v); } f.pc++; return; }
    case OP_LANDINGPAD: W(o.dst, cv(S->lpExn)); W(o.dst + 1, cv(S->lpSel)); f.pc++; return;
    case OP_RESUME: { uint64_t p = R(o.a).c; Exn *e = findExn(*S, p); uint64_t ti = e ? e->ti : 0; if (S->fr.size() == 1) pathError("uncaught exception", tiName(ti)); popFrame(*S); doUnwind(*S, p, ti); return; }
    case OP_UNREACHABLE: pathError("unreachable code executed", "");
    case OP_RMW: {
        uint64_t a = conc(R(o.a), 64); Obj *ob = accessW(a, (o.w + 7) / 8, "atomic"); Val old = loadBytes(ob, (uint32_t)a, o.w); E x = toE(old, o.w), y = toE(R(o.b), o.w), r = nullptr;
        switch (o.sub) {
        case AtomicRMWInst::Add: r = xBin(K_ADD, x, y); break; case AtomicRMWInst::Sub: r = xBin(K_SUB, x, y); break; case AtomicRMWInst::Xchg: r = y; break;
        case AtomicRMWInst::And: r = xBin(K_AND, x, y); break; case AtomicRMWInst::Or: r = xBin(K_OR, x, y); break; case AtomicRMWInst::Xor: r = xBin(K_XOR, x, y); break;
        default: unsupported("atomicrmw");
        }
        storeBytes(ob, (uint32_t)a, o.w, fromE(r)); W(o.dst, old); f.pc++; return; }
    case OP_CMPXCHG: {
        uint64_t a = conc(R(o.a), 64); Obj *ob = accessW(a, (o.w + 7) / 8, "atomic"); Val old = loadBytes(ob, (uint32_t)a, o.w); E eq = xEq(toE(old, o.w), toE(R(o.b), o.w));
        storeBytes(ob, (uint32_t)a, o.w, fromE(xIte(eq, toE(R(o.c), o.w), toE(old, o.w)))); W(o.dst, old); W(o.dst + 1, fromE(eq)); f.pc++; return; }
    case OP_FP: {
        uint64_t a = conc(R(o.a), 64), b = o.b || true ? 0 : 0; uint64_t r = 0;
        switch (o.sub) {
        case Instruction::SIToFP: r = fromF((double)sx(a, o.w2), o.w); break; case Instruction::UIToFP: r = fromF((double)a, o.w); break;
        case Instruction::FPToSI: r = (uint64_t)(int64_t)asF(a, o.w2) & maskw(o.w); break; case Instruction::FPToUI: r = (uint64_t)asF(a, o.w2) & maskw(o.w); break;
        case Instruction::FPExt: case Instruction::FPTrunc: r = fromF(asF(a, o.w2), o.w); break;
        case Instruction::FNeg: r = fromF(-asF(a, o.w), o.w); break;
        case Instruction::FCmp: { b = conc(R(o.b), 64); double x = asF(a, o.w2), y = asF(b, o.w2); bool un = x != x || y != y, q = false;
            switch (o.n & 7) { case 0: q = false; break; case 1: q = x == y; break; case 2: q = x > y; break; case 3: q = x >= y; break; case 4: q = x < y; break; case 5: q = x <= y; break; case 6: q = x != y && !un; break; case 7: q = !un; break; }
            if (o.n & 8) q = q || un; r = q; break; }
        default: { b = conc(R(o.b), 64); double x = asF(a, o.w), y = asF(b, o.w); double z = 0;
            switch (o.sub) { case Instruction::FAdd: z = o.w == 32 ? (float)x + (float)y : x + y; break; case Instruction::FSub: z = o.w == 32 ? (float)x - (float)y : x - y; break; case Instruction::FMul: z = o.w == 32 ? (float)x * (float)y : x * y; break; case Instruction::FDiv: z = o.w == 32 ? (float)x / (float)y : x / y; break; default: unsupported("fp op"); }
            r = fromF(z, o.w); } }
        W(o.dst, cv(r)); S->fr.back().pc++; return; }
    default: { std::string t; raw_string_ostream rs(t); if (o.inst) rs << *o.inst; unsupported("unsupported instruction: " + rs.str()); }
    }
}

// ---------------------------------------------------------------- scheduling of states
static double g_deadline;
static void flushInstr(uint64_t &c) { SH->instrs += c; c = 0; }
static void runState() {
    uint64_t cnt = 0;
    try {
        while (!S->dead) {
            ++cnt;
            if (++S->instrs > optMaxInstr) pathError("hang: instruction limit exceeded", "");
            if ((cnt & 0xffff) == 0) { flushInstr(cnt); if (now() > g_deadline) { SH->timeout = 1; SH->stop = 1; break; } if (SH->stop) break; }
            step();
        }
    } catch (EndPath &) {}
    flushInstr(cnt);
    uint64_t m = SH->maxInstr; while (S->instrs > m && !SH->maxInstr.compare_exchange_weak(m, S->instrs)) {}
}
static void childExit() { SH->pending += g_work.size(); SH->live--; _exit(0); }
static void workLoop(bool root) {
    while (!g_work.empty() && !SH->stop) {
        if (g_work.size() >= 2 && SH->active < optProcs) {
            int a = SH->active;
            if (a < optProcs && SH->active.compare_exchange_strong(a, a + 1)) {
                SH->live++;
                fflush(nullptr);
                pid_t p = fork();
                if (p == 0) { // child: takes the even (older) half
                    root = false;
                    std::vector<State *> mine; for (size_t i = 0; i < g_work.size(); i += 2) mine.push_back(g_work[i]); g_work.swap(mine);
                } else if (p > 0) { std::vector<State *> mine; for (size_t i = 0; i < g_work.size(); ++i) { if (i % 2) mine.push_back(g_work[i]); else delete g_work[i]; } g_work.swap(mine); }
                else { SH->live--; SH->active--; }
            }
        }
        S = g_work.back(); g_work.pop_back();
        runState();
        bool live = !S->dead; if (live) SH->pending++;
        delete S; S = nullptr;
        if (SH->nviolNew >= optMaxViol) SH->stop = 1;
        if (now() > g_deadline && !g_work.empty()) { SH->timeout = 1; SH->stop = 1; }
    }
    SH->active--;
    if (!root) childExit();
    SH->pending += g_work.size();
}

// ---------------------------------------------------------------- setup
static void storeConst(Obj *o, uint64_t off, const Constant *c) {
    Type *t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return; // zero filled
    if (auto *cs = dyn_cast<ConstantStruct>(c)) { const StructLayout *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); ++i) storeConst(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
    if (auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); ++i) storeConst(o, off + i * es, ca->getOperand(i)); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = cd->getElementByteSize(); for (unsigned i = 0; i < cd->getNumElements(); ++i) storeConst(o, off + i * es, cd->getElementAsConstant(i)); return; }
    std::vector<Val> v; constVals(c, v); uint64_t n = DL->getTypeStoreSize(t); uint64_t x = v[0].c; memcpy(o->d + off, &x, std::min<uint64_t>(n, 8));
}
int main(int argc, char **argv) {
    std::string bc, fnout;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--out") { optOut = nx(); mkdir(optOut.c_str(), 0777); } else if (a == "--entry") optEntry = nx(); else if (a == "--time") optTime = atof(nx().c_str()); else if (a == "--procs") optProcs = atoi(nx().c_str());
        else if (a == "--max-instr") optMaxInstr = strtoull(nx().c_str(), 0, 10); else if (a == "--max-depth") optMaxDepth = atoi(nx().c_str()); else if (a == "--max-cases") optMaxCases = atoi(nx().c_str()); else if (a == "--max-viol") optMaxViol = atoi(nx().c_str());
        else if (a == "--seed") optSeed = strtoull(nx().c_str(), 0, 10); else if (a == "-v") optVerbose = true; else bc = a;
    }
    SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void *)SH, 0, sizeof(Shared));
    double t0 = now(); g_deadline = t0 + optTime; if (getenv("JOMSYM_PROF")) g_prof = new std::map<std::string, uint64_t>;
    prctl(PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = RLIM_INFINITY; setrlimit(RLIMIT_STACK, &rl);
    static LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(bc, err, ctx); if (!mod) { err.print("jomsym", errs()); return 3; }
    M = mod.get(); DL = &M->getDataLayout();
    g_z3 = new Z3;
    State *init = new State; S = init;
    // functions
    for (Function &F : *M) { Fn *fn = new Fn; fn->f = &F; fn->name = F.getName().str(); fn->idx = (int)g_fns.size(); fn->decl = F.isDeclaration(); auto it = g_handlers.find(fn->name); if (it != g_handlers.end()) fn->handler = it->second; g_fnIdx[&F] = fn->idx; g_fnByName[fn->name] = fn->idx; g_addr[&F] = (FN_BASE + fn->idx) << 32; g_nameByAddr[(FN_BASE + fn->idx) << 32] = fn->name; g_fns.push_back(fn); }
    for (GlobalVariable &G : M->globals()) {
        uint64_t sz = G.hasInitializer() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : std::max<uint64_t>(64, (uint64_t)DL->getTypeAllocSize(G.getValueType()));
        uint64_t id = S->mem.add(newObj((uint32_t)sz, OF_GLOBAL, 0)); g_addr[&G] = id << 32; g_addrByName[G.getName().str()] = id << 32; g_nameByAddr[id << 32] = G.getName().str();
    }
    auto ad = [&](const char *n) -> uint64_t { auto it = g_addrByName.find(n); return it == g_addrByName.end() ? 0 : it->second; };
    VT_CLASS = ad("_ZTVN10__cxxabiv117__class_type_infoE"); VT_SI = ad("_ZTVN10__cxxabiv120__si_class_type_infoE"); VT_VMI = ad("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
    for (GlobalVariable &G : M->globals()) if (G.hasInitializer()) {
        Obj *o = S->mem.getW((uint32_t)(g_addr[&G] >> 32)); try { storeConst(o, 0, G.getInitializer()); } catch (BadConst &b) { if (optVerbose) errs() << "bad const in " << G.getName() << "\n"; }
        if (G.isConstant()) o->flags |= OF_CONST;
    }
    // constructors
    std::vector<std::pair<uint64_t, Function *>> ctors;
    if (GlobalVariable *gc = M->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (unsigned i = 0; i < ca->getNumOperands(); ++i) { auto *cs = cast<ConstantStruct>(ca->getOperand(i)); if (auto *F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({ cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F }); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
    auto itE = g_fnByName.find(optEntry); if (itE == g_fnByName.end()) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); return 3; }
    SH->active = 1; SH->live = 1;
    uint64_t cnt = 0;
    for (auto &c : ctors) { // run concretely in the initial state
        S->dead = false;
        try { pushFrame(*S, g_fns[g_fnIdx[c.second]]); while (!S->fr.empty() && !S->dead) { step(); ++cnt; } } catch (EndPath &) { inconclusive("error in global constructor " + c.second->getName().str()); }
        if (!g_work.empty()) { inconclusive("fork in global constructor"); }
    }
    flushInstr(cnt);
    S->dead = false; S->instrs = 0; g_inMain = true;
    if (!SH->inconclusive) { pushFrame(*S, g_fns[itE->second]); g_work.push_back(S); S = nullptr; workLoop(true); }
    // wait for all descendants
    SH->live--;
    int bad = 0;
    for (;;) { int st; pid_t p = waitpid(-1, &st, 0); if (p > 0) { if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { bad++; SH->live--; SH->active--; } continue; } if (errno == EINTR) continue; break; }
    if (bad) inconclusive("a worker process died (" + std::to_string(bad) + ")");
    // report (JSON)
    if (g_prof) for (auto &x : *g_prof) fprintf(stderr, "%10llu %s\n", (unsigned long long)x.second, x.first.c_str());
    std::string fn = optOut + "/result.json"; FILE *f = fopen(fn.c_str(), "w");
    auto esc = [](const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; };
    fprintf(f, "{\"paths\":%llu,\"error_paths\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"solver_s\":%.3f,\"instrs\":%llu,\"max_path_instrs\":%llu,\"concretized\":%llu,\"pending\":%llu,\"timeout\":%d,\"violations\":%d,\"cases\":%d,\"wall_s\":%.3f,\n",
        (unsigned long long)SH->paths, (unsigned long long)SH->pathsErr, (unsigned long long)SH->forks, (unsigned long long)SH->queries, (unsigned long long)SH->qsat, (unsigned long long)SH->qunsat, (unsigned long long)SH->qunk, (unsigned long long)SH->qcache, SH->solverUs / 1e6, (unsigned long long)SH->instrs, (unsigned long long)SH->maxInstr, (unsigned long long)SH->concretized, (unsigned long long)SH->pending, (int)SH->timeout, (int)SH->nviol, std::min((int)SH->ncase, optMaxCases), now() - t0);
    fprintf(f, "\"inconclusive\":[");
    for (int i = 0; i < SH->nInc; ++i) fprintf(f, "%s\"%s\"", i ? "," : "", esc(SH->incMsg[i]).c_str());
    fprintf(f, "],\n\"asserts\":{");
    for (int i = 0; i < SH->nlab; ++i) fprintf(f, "%s\"%s\":{\"checked\":%llu,\"solver\":%llu,\"violated\":%llu}", i ? "," : "", esc(SH->lab[i].name).c_str(), (unsigned long long)SH->lab[i].a, (unsigned long long)SH->lab[i].b, (unsigned long long)SH->lab[i].c);
    fprintf(f, "},\n\"reach\":{");
    for (int i = 0; i < SH->nreach; ++i) fprintf(f, "%s\"%s\":%llu", i ? "," : "", esc(SH->reach[i].name).c_str(), (unsigned long long)SH->reach[i].a);
    fprintf(f, "},\n\"functions\":[");
    bool first = true; for (size_t i = 0; i < g_fns.size() && i < 65536; ++i) if (SH->fnExec[i]) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(g_fns[i]->name).c_str()); first = false; }
    fprintf(f, "]}\n"); fclose(f);
    fflush(nullptr);
    _exit(0);
}
