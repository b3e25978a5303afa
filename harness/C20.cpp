// @entry: E_build time=150 ttime=1500 reach=failed,ok,parallel,granted
// @entry: E_multi time=150 ttime=900 reach=failed,ok
// @entry: E_goals time=150 ttime=900 reach=failed,ok
// @entry: E_error time=60 ttime=300 reach=error
// @entry: E_server time=30 ttime=60 reach=ok
// @bound: every dependency graph of 4 targets (3 with two commands, with two goals, with a command that cannot be prepared), 1 to 3 jobs, every subset of commands failing, with and without /K, every order in which commands end and job tokens arrive (tokens may arrive at any time or only when nothing else can happen)
// @outside: more targets and jobs; a jom process that is killed; the system semaphore itself (assumed to count correctly)
#include "hsched.h"
#include "jobserver.h"
static int N; static bool dep[5][5]; static int ncmd[5], endedC[5]; static bool keep;
static QByteArray nm(int i) { return QByteArray("t") + (char)('a' + i); }
static int idx(const QString &cmd) { return cmd.at(cmd.size() - 2).unicode() - 'a'; }
static void s_started(const QString &, int running)
{
    if (running > 1) sym_reach("parallel"); if (t_obtained) sym_reach("granted");
    sym_assert(running - 1 <= s_held(), "beyond its implicit job jom starts a command only while holding a job token");
}
static void s_ended(const QString &cmd, bool ok) { int i = idx(cmd); if (++endedC[i] == ncmd[i] && ok) rt_touch(nm(i), true, 2); }
static void init(int n) { N = n; for (int i = 0; i < N; ++i) { ncmd[i] = 1; for (int j = i + 1; j < N; ++j) dep[i][j] = rt_bool("dep"); } }
static QByteArray text(int bad = -1)
{
    QByteArray t;
    for (int i = 0; i < N; ++i) { t += nm(i) + ":"; for (int j = 0; j < N; ++j) if (dep[i][j]) t += " " + nm(j); t += "\n"; for (int k = 0; k < ncmd[i]; ++k) { t += "\trun t" + QByteArray(1, (char)('a' + i)) + (char)('0' + k); if (bad == i) t += " <<no/dir/f\ntext\n<<"; t += "\n"; } }
    return t;
}
static void finish(Mk &mk, const QStringList &goals)
{
    int code = s_build(mk, 1 + rt_choose("jobs", 3), goals); sym_observe_int("obtained", t_obtained);
    sym_assert(s_completed >= 1, "completion is reported"); sym_assert(!s_pending() && !s_client()->isAcquiring(), "no acquisition is pending at the end");
    sym_assert(t_obtained == t_released, "all job tokens have been returned and no more than that");
    sym_reach(code ? "failed" : "ok");
}
extern "C" void E_build() { keep = rt_bool("keep"); init(TIER == 2 ? 5 : 4); if (N == 5) sym_assume(dep[0][3] & dep[0][4]); Mk mk; sym_assert(mk.read(text()), "read"); mk.o->buildUnrelatedTargetsOnError = keep; s_fail = true; finish(mk, QStringList()); }
extern "C" void E_multi() { keep = rt_bool("keep"); init(3); for (int i = 0; i < N; ++i) ncmd[i] = 1 + rt_choose("cmds", 2); Mk mk; sym_assert(mk.read(text()), "read"); mk.o->buildUnrelatedTargetsOnError = keep; s_fail = true; finish(mk, QStringList()); }
extern "C" void E_goals()
{
    keep = rt_bool("keep"); init(3); QStringList g; g << QString::fromLatin1(nm(rt_choose("g", 3))) << QString::fromLatin1(nm(rt_choose("h", 3)));
    Mk mk; sym_assert(mk.read(text(), g), "read"); mk.o->buildUnrelatedTargetsOnError = keep; s_fail = true; finish(mk, g);
}
extern "C" void E_error() { init(4); int bad = rt_choose("bad", 4); Mk mk; sym_assert(mk.read(text(bad)), "read"); s_fail = rt_bool("fails"); finish(mk, QStringList()); if (s_code == 1) sym_reach("error"); }
// the server creates one token less than jobs: the implicit one is never in the pool
extern "C" void E_server()
{
    int n = 1 + rt_choose("n", 8); ProcessEnvironment env; JobServer js(&env); sym_assert(js.start(n), "the job server starts");
    sym_assert(t_created == n - 1, "the server provides one token less than jobs");
    sym_assert(!env.value(QString(R_("_JOMSRVKEY_"))).isEmpty(), "the key of the server is passed on"); sym_assert(env.value(QString(R_("_JOMJOBCOUNT_"))).toInt() == n, "the number of jobs is passed on"); sym_reach("ok");
}
