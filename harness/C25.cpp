// @entry: E_order time=150 ttime=900 reach=built,synced,parallel
// @entry: E_two time=100 ttime=900 reach=built,synced
// @entry: E_names time=100 ttime=600 reach=built,synced,macro
// @entry: E_keeps time=60 ttime=600 reach=ok
// @entry: E_notparallel time=60 ttime=300 reach=on,off
// @bound: every list of up to 5 (thorough 6) dependents over 3 targets and .SYNC for one target, every graph among the dependents, 1 to 3 jobs, every order in which commands end; two targets with lists of up to 4 dependents over 3 targets; 3 dependents with synchronisation points between them, each written as it is, in other letters, in quotes or with the name of the target ($$@, $(@F)), or a file that is no target, for one or two targets
// @outside: more targets; lists that make the makefile cyclic (C08)
#include "hsched.h"
static int N = 4; static bool dep[5][5], before[5][5]; static int startedC[5], endedC[5];
static const char *prefix = "t";
static QByteArray nm(int i) { return QByteArray(prefix) + (char)('a' + i); }
static int idx(const QString &cmd) { return cmd.at(cmd.size() - 1).unicode() - 'a'; }
static bool reach(bool e[5][5], int a, int b) { bool seen[5] = { false, false, false, false, false }; int st[64], k = 0; st[k++] = a; while (k) { int x = st[--k]; for (int j = 0; j < N; ++j) if (e[x][j] && !seen[j]) { seen[j] = true; if (k < 60) st[k++] = j; } } return seen[b]; }
static void s_started(const QString &cmd, int running)
{
    int i = idx(cmd); rt_observe("start", cmd); ++startedC[i]; if (running > 1) sym_reach("parallel");
    for (int j = 0; j < N; ++j) {
        if (dep[i][j]) sym_assert(endedC[j] == 1, "a target is built after its dependents");
        if (before[i][j]) { sym_assert(endedC[j] == 1, "a target listed after a synchronisation point is built after all targets listed before it"); sym_reach("synced"); }
    }
}
static void s_ended(const QString &cmd, bool) { int i = idx(cmd); ++endedC[i]; rt_touch(nm(i), true, 2); }
// a list of dependents of target t over the targets f..N-1
static QByteArray list(int t, int f, int max)
{
    QByteArray l; int n = rt_choose("n", max + 1); int prev[8], np = 0, cur[8], nc = 0;
    for (int i = 0; i < n; ++i) {
        int k = rt_choose("item", N - f + 1);
        if (k == N - f) { l += " .SYNC"; for (int x = 0; x < nc; ++x) prev[np++] = cur[x]; nc = 0; continue; }
        k += f; l += " " + nm(k); dep[t][k] = true; for (int x = 0; x < np; ++x) before[k][prev[x]] = true; if (nc < 8 && np + nc < 8) cur[nc++] = k;
    }
    return l;
}
static bool go(const QByteArray &text)
{
    bool all[5][5]; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) all[i][j] = dep[i][j] || before[i][j];
    for (int i = 0; i < N; ++i) if (reach(all, i, i)) return false;
    Mk mk; sym_assert(mk.read(text), "the makefile is read");
    for (int i = 0; i < N; ++i) { DescriptionBlock *b = mk.m->target(QString::fromLatin1(nm(i))); sym_assert(b && !b->m_dependents.contains(R_(".SYNC")), ".SYNC is no dependent"); }
    int code = s_build(mk, 1 + rt_choose("jobs", 3)); sym_assert(code == 0, "the build succeeds");
    for (int i = 0; i < N; ++i) { bool need = i == 0 || reach(all, 0, i); sym_assert(endedC[i] == (need ? 1 : 0), "every needed target is built once"); }
    sym_reach("built"); return true;
}
static QByteArray rest(int f) { QByteArray t; for (int i = f; i < N; ++i) { t += nm(i) + ":"; for (int j = f; j < N; ++j) if (dep[i][j]) t += " " + nm(j); t += "\n\trun t" + QByteArray(1, (char)('a' + i)) + "\n"; } return t; }
static QByteArray rest2() { QByteArray t; for (int i = 1; i < N; ++i) t += nm(i) + ":\n\trun t" + QByteArray(1, (char)('a' + i)) + "\n"; return t; }
extern "C" void E_order()
{
    for (int i = 1; i < N; ++i) for (int j = i + 1; j < N; ++j) dep[i][j] = rt_bool("dep");
    QByteArray r = rest(1), l = list(0, 1, TIER == 2 ? 6 : 5); go("ta:" + l + "\n\trun ta\n" + r);
}
extern "C" void E_two()
{
    // ta depends on tb and on the rest, tb on the rest
    QByteArray l = list(1, 2, TIER == 2 ? 5 : 4), k; N = 4; k = list(0, 1, TIER == 2 ? 4 : 3); dep[0][1] = true; go("ta:" + k + "\nta: tb\n\trun ta\ntb:" + l + "\n\trun tb\n" + rest(2));
}
// the dependents of the list in other spellings, also with the name of the target; files that are no targets between them; two targets on the line
extern "C" void E_names()
{
    N = 4; prefix = "go"; bool two = rt_bool("two"); QByteArray l; int cur[4], n = 0, prev = 0; bool mac = false;
    for (int i = 0; i < 3; ++i) {
        if (i && rt_bool("sync")) { l += " .SYNC"; prev = n; }
        int f = rt_choose("form", 6); if (f == 5) { l += " x.h"; continue; }
        int k = 1 + rt_choose("target", 3); QByteArray b(1, (char)('a' + k)); for (int j = 0; j < n; ++j) if (cur[j] == k) return;
        l += f == 0 ? " go" + b : f == 1 ? " GO" + b : f == 2 ? " \"go" + b + "\"" : f == 3 ? " $$@" + b : " $(@F)" + b; if (f > 2) mac = true;
        dep[0][k] = true; for (int j = 0; j < prev; ++j) before[k][cur[j]] = true; cur[n++] = k;
    }
    // the second target has the same names in another letter
    bool all[5][5]; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) all[i][j] = dep[i][j] || before[i][j];
    rt_file("x.h", ""); if (two && mac) for (int i = 1; i < 4; ++i) rt_file("so" + QByteArray(1, (char)('a' + i)), "");
    Mk mk; sym_assert(mk.read((two ? QByteArray("so go:") : QByteArray("go:")) + l + "\n\trun ta\n" + rest2()), "the makefile is read");
    int code = s_build(mk, 2, QStringList() << R_("go")); sym_assert(code == 0, "the build succeeds");
    for (int i = 0; i < N; ++i) sym_assert(endedC[i] == (i == 0 || dep[0][i] ? 1 : 0), "every needed target is built once");
    sym_reach("built"); if (mac) sym_reach("macro");
}
// other dependencies are unaffected
extern "C" void E_keeps()
{
    N = 3; QByteArray l = list(0, 1, 4); bool all[5][5]; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) all[i][j] = dep[i][j] || before[i][j]; for (int i = 0; i < N; ++i) if (reach(all, i, i)) return;
    Mk mk; sym_assert(mk.read("ta:" + l + " ff\n\tx\ntb: gg\n\tx\ntc: hh\n\tx\n"), "read"); DescriptionBlock *a = mk.t("ta"); sym_assert(a != nullptr, "target");
    for (int i = 1; i < 3; ++i) {
        sym_assert(a->m_dependents.contains(QString::fromLatin1(nm(i))) == dep[0][i], "the dependents of the list");
        DescriptionBlock *b = mk.m->target(QString::fromLatin1(nm(i))); sym_assert(b && b->m_dependents.first() == QString(i == 1 ? R_("gg") : R_("hh")), "dependents of other targets stay");
    }
    sym_reach("ok");
}
extern "C" void E_notparallel()
{
    bool on = rt_bool("on"); int where = rt_choose("where", 3); QByteArray np = on ? ".NOTPARALLEL:\n" : "", t;
    t = (where == 0 ? np : QByteArray()) + "ta: tb\n\tx\n" + (where == 1 ? np : QByteArray()) + "tb:\n\ty\n" + (where == 2 ? np : QByteArray());
    Mk mk; sym_assert(mk.read(t), "read"); sym_assert(mk.m->isParallelExecutionDisabled() == on, "a makefile is built in parallel unless marked"); sym_assert(mk.t("ta") && mk.t("tb") && !mk.t(".NOTPARALLEL"), "the mark is no target"); sym_assert(mk.m->firstTarget() == mk.t("ta"), "the first target"); sym_reach(on ? "on" : "off");
}
