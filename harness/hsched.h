// Runs a build through the real TargetExecutor, CommandExecutor, Process, JobClient and DependencyGraph; the order in
// which commands end and job tokens arrive is chosen by the solver.
#pragma once
#include "mk.h"
#include "targetexecutor.h"
#include "jobclient.h"
#include "win_process.h"
#include "job_tokens.h"
struct SEvent { int proc; QString cmd; };
static int s_jobs = 1; static bool s_fail;              // s_fail: commands may fail
static int s_completed, s_code; static bool s_badEnd;
static bool s_anyFailed; static TargetExecutor *s_te;
// hooks of the harness
static void s_started(const QString &cmd, int running);   // running: commands running including this one
static void s_ended(const QString &cmd, bool ok);
static bool (*s_canStart)(const QString &cmd) = nullptr;    // may this command be started
static bool w_onStart(WProc &p)
{
    if (s_canStart && !s_canStart(p.cmd)) return false;
    s_started(p.cmd, w_running().size() + 1); return true;
}
static uint32_t (*s_exitCode)(const QString &cmd) = nullptr;     // the exit code of a command, instead of s_fail
static int s_held() { return t_obtained - t_released; }
static JobClient *s_client() { for (QObject *o : s_te->children()) if (JobClient *c = qobject_cast<JobClient *>(o)) return c; return nullptr; }
static bool s_pending() { JobClient *c = s_client(); return c && c->isAcquiring() && t_grants == t_obtained; }
static bool s_eager;                                       // tokens are granted at once
static int (*s_moreSteps)() = nullptr; static void (*s_doMore)(int) = nullptr;   // further steps of the environment
bool rt_loopStep()
{
    QList<int> r = w_running(); int n = r.size(); bool g = s_pending(); if (!n && !g) return false;
    if (g && s_eager) { t_grant(); return true; }
    int m = s_moreSteps ? s_moreSteps() : 0, all = n + (g ? 1 : 0) + m, k = all > 1 ? (int)rt_choose("step", all) : 0;
    if (k >= n + (g ? 1 : 0)) { s_doMore(k - n - (g ? 1 : 0)); return true; }
    if (k == n) { t_grant(); return true; }
    int code = 0; if (s_exitCode) { QString c = w_procs().at(r.at(k)).cmd; uint32_t x = s_exitCode(c); s_ended(c, x == 0); w_end(r.at(k), (int)x); return true; }
    if (s_fail && rt_bool("fail")) { code = 1; s_anyFailed = true; }
    QString c = w_procs().at(r.at(k)).cmd; s_ended(c, code == 0);
    w_end(r.at(k), code); return true;
}
// returns the exit code jom reports
static int s_build(Mk &mk, int jobs, const QStringList &active = QStringList())
{
    s_jobs = jobs; g_options.maxNumberOfJobs = jobs; s_completed = 0; s_code = -1;
    ProcessEnvironment env = mk.mt->environment(); env.insert(QString(R_("_JOMSRVKEY_")), QString(R_("key")));
    TargetExecutor *te = new TargetExecutor(env); s_te = te; static int argc = 1; static char *argv[] = { (char *)"jom", nullptr }; QCoreApplication app(argc, argv);
    QObject::connect(te, &TargetExecutor::finished, te, [](int c) {
        sym_assert(w_running().isEmpty(), "no command is running when completion is reported");
        if (s_completed) sym_assert((s_code == 0) == (c == 0), "success and failure are not both reported"); else s_code = c;
        ++s_completed; QCoreApplication::exit(c);      // like main(): no event loop runs any longer
    });
    bool thrown = false;
    try { te->apply(mk.m, active); } catch (Exception &) { thrown = true; }
    if (!thrown && !s_completed) QCoreApplication::exec();
    sym_observe_int("exit", (uint64_t)(int64_t)s_code);
    return s_code;
}
