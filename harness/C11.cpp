// @entry: E_tree time=200 ttime=1500 reach=built,current,pseudo,touched,untouched
// @entry: E_wide time=200 ttime=1500 reach=built,current
// @entry: E_chain time=150 ttime=900 reach=built,current,pseudo
// @entry: E_all time=100 ttime=600 reach=all
// @entry: E_goals time=200 ttime=1500 reach=second,again
// @entry: E_order time=60 ttime=300 reach=order
// @bound: every dependency graph of 4 (thorough 5) nodes in which the first depends on the second (which is a target), each a plain file or a target with or without commands, a target with 4 (5) dependents, a chain of 5 (6) targets, all with arbitrary presence and arbitrary 64-bit ages; commands create, touch or leave their target with an arbitrary age; with the build-all option; two goals one after the other; comparison of every two 64-bit time stamps
// @outside: time stamps in the future and the zero time stamp; several jobs (C09); batch rules (C12); more nodes; a target defined with the directory of the makefile and used without it
#include "hsched.h"
#include "filetime.h"
static int N; static bool dep[6][6], plain[6], cmd[6]; static uint64_t pre[6], post[6]; static bool has[6], hasPost[6]; static int started[6]; static bool g_all; static int g_phase, g_goal[2]; static int g_nodes;
static QByteArray nm(int i) { return QByteArray("t") + (char)('a' + i); }
static bool needs(int a, int b) { if (a == b) return true; for (int k = 0; k < N; ++k) if (dep[a][k] && needs(k, b)) return true; return false; }
static bool leaf(int i) { for (int k = 0; k < N; ++k) if (dep[i][k]) return false; return true; }
static uint64_t age(const char *n) { uint64_t a = sym_new(n, 64); sym_assume((a > 0) & (a < 0x01d0000000000000ull)); return a; }
// ---- reference
struct Val { bool force; uint64_t age; };
static Val value(int i);
static Val newest(int i) { Val r = { false, 0 }; for (int k = 0; k < N; ++k) if (dep[i][k]) { Val v = value(k); r.force = r.force | v.force; r.age = v.age > r.age ? v.age : r.age; } return r; }
static bool outdated(int i) { if (g_all || !has[i]) return true; if (leaf(i)) return false; Val n = newest(i); return n.force | (n.age > pre[i]); }
static Val value(int i)
{
    if (plain[i]) { Val v = { false, pre[i] }; return v; }
    if (!has[i]) { if (cmd[i]) { Val v = { true, 0 }; return v; } if (leaf(i)) { Val v = { true, 0 }; return v; } return newest(i); }
    Val v = { false, pre[i] }; if (cmd[i] && started[i]) { v.force = !hasPost[i]; v.age = post[i]; } return v;
}
static void endPhase()
{
    for (int i = 0; i < N; ++i) {
        if (plain[i] || !cmd[i] || !needs(g_goal[g_phase], i)) continue;
        bool o = outdated(i); if (started[i]) { sym_assert(o, "only targets that are missing or older than a dependent are built"); sym_reach(g_all ? "all" : g_phase ? "second" : "built"); } else { sym_assert(!o, "every target that is missing or older than a dependent is built"); sym_reach("current"); }
    }
    for (int i = 0; i < N; ++i) if (started[i]) { has[i] = hasPost[i]; pre[i] = post[i]; started[i] = 0; }
}
static bool phaseDone() { for (int i = 0; i < N; ++i) if (!plain[i] && cmd[i] && needs(g_goal[0], i) && !started[i] && outdated(i)) return false; return true; }
static int g_end[6];
static void s_started(const QString &c, int)
{
    int i = c.at(c.size() - 1).unicode() - 'a'; rt_observe("start", c); if (g_phase == 0 && g_goal[1] >= 0 && (started[i] || phaseDone())) { if (started[i]) sym_reach("again"); endPhase(); g_phase = 1; }
    sym_assert(needs(g_goal[g_phase], i) && !started[i], "only needed targets are built, and once"); for (int k = 0; k < N; ++k) if (dep[i][k] && started[k]) sym_assert(g_end[k], "a dependent is built first");
    sym_assert(outdated(i), "only targets that are missing or older than a dependent are built"); started[i] = 1; g_end[i] = 0; hasPost[i] = has[i]; post[i] = pre[i];
}
static void s_ended(const QString &c, bool)
{
    int i = c.at(c.size() - 1).unicode() - 'a'; g_end[i] = 1; if (rt_bool("touch")) { hasPost[i] = true; post[i] = age("newage"); rt_touch(nm(i), true, post[i]); sym_reach("touched"); } else sym_reach("untouched");
}
static QByteArray makefile()
{
    QByteArray t; for (int i = 0; i < N; ++i) { if (plain[i]) continue; t += nm(i) + ":"; for (int k = 0; k < N; ++k) if (dep[i][k]) t += " " + nm(k); t += "\n"; if (cmd[i]) t += QByteArray("\trun ") + (char)('a' + i) + "\n\n"; }
    return t;
}
static void files(int i) { has[i] = plain[i] ? true : rt_bool("exists"); if (has[i]) { pre[i] = age("age"); rt_file(nm(i), "x", true, pre[i]); } else if (!cmd[i]) sym_reach("pseudo"); }
static void run(int g0, int g1)
{
    g_goal[0] = g0; g_goal[1] = g1; g_phase = 0; QStringList g; g << QString::fromLatin1(nm(g0)); if (g1 >= 0) g << QString::fromLatin1(nm(g1));
    Mk mk; mk.o->buildAllTargets = g_all; sym_assert(mk.read(makefile(), g), "the makefile is read"); sym_assert(s_build(mk, 1, g) == 0, "the build succeeds"); endPhase(); if (g1 >= 0 && g_phase == 0) { g_phase = 1; endPhase(); }
}
static void kinds(int from) { for (int i = from; i < N; ++i) { plain[i] = rt_bool("plain"); cmd[i] = plain[i] ? false : rt_bool("cmd"); } }
static void edges() { for (int i = 0; i < N; ++i) if (!plain[i]) for (int k = i + 1; k < N; ++k) dep[i][k] = rt_bool("dep"); }
extern "C" void E_tree() { N = TIER == 2 ? 5 : 4; cmd[0] = true; kinds(1); edges(); if (!dep[0][1] || (TIER != 2 && plain[1])) return; for (int i = 0; i < N; ++i) { if (!needs(0, i)) return; files(i); } run(0, -1); }
extern "C" void E_wide() { N = TIER == 2 ? 6 : 5; cmd[0] = true; kinds(1); for (int k = 1; k < N; ++k) dep[0][k] = true; for (int i = 0; i < N; ++i) files(i); run(0, -1); }
extern "C" void E_chain() { N = TIER == 2 ? 6 : 5; cmd[0] = true; for (int i = 1; i < N; ++i) { plain[i] = i == N - 1 ? rt_bool("plain") : false; cmd[i] = plain[i] ? false : rt_bool("cmd"); } for (int i = 0; i + 1 < N; ++i) dep[i][i + 1] = true; for (int i = 0; i < N; ++i) files(i); run(0, -1); }
extern "C" void E_all() { N = TIER == 2 ? 4 : 3; g_all = true; cmd[0] = true; kinds(1); edges(); for (int i = 0; i < N; ++i) files(i); run(0, -1); }
extern "C" void E_goals() { N = 3; kinds(0); edges(); int a = rt_choose("g", N), b = rt_choose("h", N); if (plain[a] || plain[b]) return; for (int i = 0; i < N; ++i) files(i); run(a, b); }
extern "C" void E_order()
{
    uint64_t a = sym_new("a", 64), b = sym_new("b", 64); FileTime x(a), y(b), z; sym_assert((x < y) == (a < b), "time stamps are ordered like 64-bit numbers"); sym_assert((x <= y) == (a <= b), "time stamps are ordered like 64-bit numbers"); sym_assert((x == y) == (a == b), "time stamps are equal iff their values are");
    sym_assert(x.isValid() == (a != 0) && !z.isValid(), "a time stamp is valid unless empty"); x.clear(); sym_assert(!x.isValid(), "a cleared time stamp is not valid"); sym_reach("order");
}
