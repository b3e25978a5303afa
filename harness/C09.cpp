// @entry: E_dag time=200 ttime=1500 reach=built,parallel
// @entry: E_order time=100 ttime=900 reach=built,skipped,parallel
// @entry: E_uptodate time=100 ttime=900 reach=built,skipped
// @entry: E_multi time=60 ttime=600 reach=built
// @entry: E_goals time=100 ttime=900 reach=built,twogoals
// @entry: E_nocmd time=100 ttime=900 reach=built
// @entry: E_early time=100 ttime=900 reach=built,parallel
// @entry: E_twice time=60 ttime=600 reach=built
// @bound: every dependency graph of 4 targets (thorough: 5, two of them direct dependents of the first) with one command each, 1 to 3 (4) jobs, every order in which commands end and job tokens arrive; for 3 (4) targets also every order of the blocks, every subset of targets present, with commands missing, with two commands, every pair of goals, dependents written twice, targets written as soon as their command starts
// @outside: more targets and jobs, inference rules (C12), commands started through the shell (C21)
#include "hsched.h"
static int N; static bool dep[5][5], present[5], hascmd[5]; static int ncmd[5], startedC[5], endedC[5]; static bool needed[5], must[5];
static QByteArray nm(int i) { return QByteArray("t") + (char)('a' + i); }
static bool reachAny(int a, int b) { if (a == b) return true; for (int k = 0; k < N; ++k) if (dep[a][k] && reachAny(k, b)) return true; return false; }
static bool acyclic(int i, int depth) { if (depth > N) return false; for (int k = 0; k < N; ++k) if (dep[i][k] && !acyclic(k, depth + 1)) return false; return true; }
// missing (a file), or something it depends on is built or missing
static bool outdated(int i) { if (!present[i]) return true; for (int j = 0; j < N; ++j) if (dep[i][j] && ((outdated(j) && hascmd[j]) || !present[j])) return true; return false; }
static bool g_early, dup[5][5];      // the command writes its target as soon as it starts; dependents written twice
static int idx(const QString &cmd) { return cmd.at(cmd.size() - 2).unicode() - 'a'; }
static int num(const QString &cmd) { return cmd.at(cmd.size() - 1).unicode() - '0'; }
static void s_started(const QString &cmd, int running)
{
    int i = idx(cmd); rt_observe("start", cmd);
    sym_assert(running <= s_jobs, "no more commands run than jobs allowed");
    if (running > 1) sym_reach("parallel");
    sym_assert(needed[i], "only needed targets are built"); sym_assert(must[i], "up-to-date targets are not built");
    sym_assert(num(cmd) == startedC[i] && endedC[i] == startedC[i], "the commands of a target run once and one after the other"); if (!startedC[i]++ && g_early) rt_touch(nm(i), true, 2);
    for (int j = 0; j < N; ++j) if (j != i && reachAny(i, j) && must[j]) sym_assert(endedC[j] == ncmd[j], "a target is built after everything it depends on");
}
static void s_ended(const QString &cmd, bool) { int i = idx(cmd); rt_observe("end", cmd); if (++endedC[i] == ncmd[i]) rt_touch(nm(i), true, 2); }
static void init(int n) { N = n; for (int i = 0; i < N; ++i) { hascmd[i] = true; ncmd[i] = 1; for (int j = i + 1; j < N; ++j) dep[i][j] = rt_bool("dep"); } }
static void buildAndCheck(const QStringList &goals, int g0, int g1)
{
    QByteArray t;
    for (int i = 0; i < N; ++i) { t += nm(i) + ":"; for (int j = 0; j < N; ++j) if (dep[i][j]) t += " " + nm(j) + (dup[i][j] ? " " + nm(j) : ""); t += "\n"; for (int k = 0; k < ncmd[i]; ++k) t += "\trun t" + QByteArray(1, (char)('a' + i)) + (char)('0' + k) + "\n"; }
    for (int i = N; i-- > 0;) {
        needed[i] = reachAny(g0, i) || (g1 >= 0 && reachAny(g1, i));
        must[i] = outdated(i) && hascmd[i];
        if (present[i]) rt_file(nm(i), "x", true, 1);
    }
    Mk mk; sym_assert(mk.read(t, goals), "the makefile is read"); s_eager = false;
    int jobs = 1 + rt_choose("jobs", TIER == 2 ? 4 : 3);
    int code = s_build(mk, jobs, goals);
    sym_assert(s_completed >= 1 && code == 0, "a build without failures ends with exit code 0");
    for (int i = 0; i < N; ++i) { int want = needed[i] && must[i] ? ncmd[i] : 0; sym_assert(startedC[i] == want && endedC[i] == want, "every command of a needed target runs exactly once"); if (needed[i] && !must[i]) sym_reach("skipped"); }
    sym_reach("built");
}
extern "C" void E_dag() { init(TIER == 2 ? 5 : 4); if (TIER == 2) for (int i = 3; i < 5; ++i) sym_assume(dep[0][i]); buildAndCheck(QStringList(), 0, -1); }
// the blocks of the makefile and the dependents are written in every order
extern "C" void E_order()
{
    N = TIER == 2 ? 4 : 3; for (int i = 0; i < N; ++i) { hascmd[i] = true; ncmd[i] = 1; present[i] = rt_bool("present"); for (int j = 0; j < N; ++j) dep[i][j] = i != j ? rt_bool("dep") : false; }
    for (int i = 0; i < N; ++i) if (!acyclic(i, 1)) return;
    int g = rt_choose("goal", N); buildAndCheck(QStringList(QString::fromLatin1(nm(g))), g, -1);
}
extern "C" void E_uptodate() { init(TIER == 2 ? 4 : 3); for (int i = 0; i < N; ++i) present[i] = rt_bool("present"); buildAndCheck(QStringList(), 0, -1); }
extern "C" void E_multi() { init(TIER == 2 ? 4 : 3); for (int i = 0; i < N; ++i) ncmd[i] = 1 + rt_choose("cmds", 2); buildAndCheck(QStringList(), 0, -1); }
extern "C" void E_nocmd() { init(4); for (int i = 0; i < N; ++i) { hascmd[i] = rt_bool("cmd"); ncmd[i] = hascmd[i] ? 1 : 0; } buildAndCheck(QStringList(), 0, -1); }
extern "C" void E_goals()
{
    init(TIER == 2 ? 4 : 3); for (int i = 0; i < N; ++i) present[i] = rt_bool("present"); int a = rt_choose("g", N), b = rt_choose("h", N); QStringList g; g << QString::fromLatin1(nm(a)) << QString::fromLatin1(nm(b));
    if (a != b) sym_reach("twogoals"); buildAndCheck(g, a, b);
}
extern "C" void E_early() { init(4); g_early = true; bool gone = rt_bool("gone"); for (int i = 0; i < N; ++i) present[i] = !gone && i > 0; if (!gone) { present[3] = false; ncmd[2] = 1 + rt_bool("two"); } else ncmd[3] = 1 + rt_bool("two"); buildAndCheck(QStringList(), 0, -1); }
extern "C" void E_twice() { init(TIER == 2 ? 4 : 3); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (dep[i][j]) dup[i][j] = rt_bool("twice"); buildAndCheck(QStringList(), 0, -1); }
