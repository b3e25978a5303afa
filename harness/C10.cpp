// @entry: E_stop time=200 ttime=1500 reach=failed,ok,parallel
// @entry: E_multi time=150 ttime=900 reach=failed,ok
// @entry: E_keep time=200 ttime=1500 reach=failed,ok,contained
// @entry: E_goals time=150 ttime=900 reach=failed,ok
// @entry: E_error time=60 ttime=300 reach=error
// @bound: every dependency graph of 4 targets with one or two commands each (thorough: 5, two of them direct dependents of the first), 1 to 3 jobs, every subset of commands failing, with and without /K, every order in which commands end and job tokens arrive, two goals
// @outside: more targets and jobs; commands whose failure is tolerated (C13); time outs and user interrupts; a shell that cannot be started
#include "hsched.h"
static int N; static bool dep[5][5]; static int ncmd[5], startedC[5], endedC[5]; static bool failedC[5]; static bool keep, stopped, inlineErr[5];
static QByteArray nm(int i) { return QByteArray("t") + (char)('a' + i); }
static bool reachAny(int a, int b) { if (a == b) return true; for (int k = 0; k < N; ++k) if (dep[a][k] && reachAny(k, b)) return true; return false; }
static int idx(const QString &cmd) { return cmd.at(cmd.size() - 2).unicode() - 'a'; }
static int num(const QString &cmd) { return cmd.at(cmd.size() - 1).unicode() - '0'; }
static void s_started(const QString &cmd, int running)
{
    int i = idx(cmd); rt_observe("start", cmd);
    if (running > 1) sym_reach("parallel");
    sym_assert(!stopped, "after a failure no further command is started");
    sym_assert(!failedC[i], "after a failed command no further command of its target is started");
    sym_assert(num(cmd) == startedC[i] && endedC[i] == startedC[i], "the commands of a target run once and one after the other"); ++startedC[i];
    for (int j = 0; j < N; ++j) if (j != i && reachAny(i, j)) sym_assert(!failedC[j], "a target that depends on a failed one is not built");
}
static void s_ended(const QString &cmd, bool ok) { int i = idx(cmd); rt_observe("end", cmd); ++endedC[i]; if (!ok) { failedC[i] = true; if (!keep) stopped = true; } else if (endedC[i] == ncmd[i]) rt_touch(nm(i), true, 2); }
static void init(int n) { N = n; for (int i = 0; i < N; ++i) { ncmd[i] = 1; for (int j = i + 1; j < N; ++j) dep[i][j] = rt_bool("dep"); } }
static QByteArray text()
{
    QByteArray t;
    for (int i = 0; i < N; ++i) { t += nm(i) + ":"; for (int j = 0; j < N; ++j) if (dep[i][j]) t += " " + nm(j); t += "\n"; for (int k = 0; k < ncmd[i]; ++k) t += "\trun t" + QByteArray(1, (char)('a' + i)) + (char)('0' + k) + "\n"; }
    return t;
}
static void buildAndCheck(const QStringList &goals, int g0, int g1)
{
    Mk mk; sym_assert(mk.read(text(), goals), "the makefile is read"); mk.o->buildUnrelatedTargetsOnError = keep; s_fail = true;
    int code = s_build(mk, 1 + rt_choose("jobs", 3), goals);
    sym_assert(s_completed >= 1, "completion is reported");
    sym_assert((code != 0) == s_anyFailed, "the exit code tells whether a command failed");
    for (int i = 0; i < N; ++i) {
        bool needed = reachAny(g0, i) || (g1 >= 0 && reachAny(g1, i)), blocked = false; for (int j = 0; j < N; ++j) if (j != i && reachAny(i, j) && failedC[j]) blocked = true;
        if (!needed || blocked) { sym_assert(startedC[i] == 0, "unneeded targets and those that depend on a failed one are left unbuilt"); if (blocked && keep) sym_reach("contained"); }
        else if (keep || !s_anyFailed) sym_assert(failedC[i] || endedC[i] == ncmd[i], "everything else is built");
    }
    sym_reach(s_anyFailed ? "failed" : "ok");
}
extern "C" void E_stop() { init(TIER == 2 ? 5 : 4); if (N == 5) sym_assume(dep[0][3] & dep[0][4]); buildAndCheck(QStringList(), 0, -1); }
extern "C" void E_keep() { keep = true; init(TIER == 2 ? 5 : 4); if (N == 5) sym_assume(dep[0][3] & dep[0][4]); buildAndCheck(QStringList(), 0, -1); }
extern "C" void E_multi() { keep = rt_bool("keep"); init(TIER == 2 ? 4 : 3); for (int i = 0; i < N; ++i) ncmd[i] = 1 + rt_choose("cmds", 2); buildAndCheck(QStringList(), 0, -1); }
extern "C" void E_goals()
{
    keep = rt_bool("keep"); init(3); int a = rt_choose("g", 3), b = rt_choose("h", 3); if (a == b) return; QStringList g; g << QString::fromLatin1(nm(a)) << QString::fromLatin1(nm(b));
    // what failed for the first goal may be tried again for the second one
    for (int i = 0; i < N; ++i) if (keep && reachAny(a, i) && reachAny(b, i)) return;
    buildAndCheck(g, a, b);
}
// an error while a command is prepared (its inline file cannot be written) is a failure, too
extern "C" void E_error()
{
    init(3); int bad = rt_choose("bad", 3); sym_assume(reachAny(0, bad)); keep = false; s_fail = rt_bool("fails");
    QByteArray t; for (int i = 0; i < N; ++i) { t += nm(i) + ":"; for (int j = 0; j < N; ++j) if (dep[i][j]) t += " " + nm(j); t += "\n\trun t" + QByteArray(1, (char)('a' + i)) + "0"; if (i == bad) t += " <<no/dir/f\ntext\n<<"; t += "\n"; }
    Mk mk; sym_assert(mk.read(t), "the makefile is read");
    int code = s_build(mk, 1 + rt_choose("jobs", 3));
    sym_assert(s_completed >= 1 && code != 0, "a failing preparation ends the build with an error"); sym_assert(startedC[bad] == 0, "a command without its inline file is not started"); sym_reach("error");
}
