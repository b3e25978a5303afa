// Runs the real main() of jom with the given arguments, environment and files; the order in which commands end and job
// tokens arrive is chosen by the solver.
#pragma once
#include "mk.h"
#include "jobclient.h"
QByteArray rt_relPath(const QString &p);
#include "win_process.h"
static int a_obtained, a_released, a_created = -1; static QString a_createdKey, a_usedKey; static int a_grants, a_taken; static bool a_mixed;
void rt_waitWoken() __attribute__((weak)); void rt_sleep() __attribute__((weak)); bool rt_threadStep() __attribute__((weak)); void rt_wokenClear() __attribute__((weak));
void rt_semCreate(const QString &key, int n, bool create) { if (create) { a_created = n; a_createdKey = key; } else a_usedKey = key; }
int rt_semAcquire(const QString &)
{
    if (rt_sleep) { while (__atomic_load_n(&a_grants, __ATOMIC_SEQ_CST) <= a_taken) rt_sleep(); } else if (a_grants <= a_taken) sym_internal_error("acquisition without a grant");
    ++a_taken; ++a_obtained; return 1;
}
void rt_semRelease(const QString &, int n) { a_released += n; }
static JobClient *a_client; void rt_threadStarted(QThread *t) { if (JobClient *c = qobject_cast<JobClient *>(t->parent())) a_client = c; }
static bool a_pending() { return a_client && a_client->isAcquiring() && a_grants == a_obtained; }
static void a_grant() { if (rt_wokenClear) { rt_pump(); rt_wokenClear(); __atomic_add_fetch(&a_grants, 1, __ATOMIC_SEQ_CST); rt_waitWoken(); } else { ++a_grants; if (!rt_threadStep()) sym_fail("no acquisition is pending"); } }
static QStringList a_args, a_env; static bool a_running; static BOOL (WINAPI *a_ctrl)(DWORD);
QStringList rt_arguments() { return QStringList() << QString(R_("jom")) << a_args; }
QStringList rt_systemEnvironment() { return a_env; }
extern "C" { BOOL WINAPI SetConsoleCtrlHandler(PHANDLER_ROUTINE f, BOOL add) { a_ctrl = add ? (BOOL (WINAPI *)(DWORD))f : nullptr; return TRUE; } BOOL WINAPI GenerateConsoleCtrlEvent(DWORD, DWORD) { return TRUE; } }
// hooks of the harness
static void a_started(const WProc &p, int running); static int a_exitCode(const QString &cmd); static void a_ended(const QString &cmd, int code);
static bool w_onStart(WProc &p) { a_started(p, w_running().size() + 1); return true; }
static bool a_interrupts;
bool rt_loopStep()
{
    QList<int> r = w_running(); bool g = a_pending(); int n = r.size() + (g ? 1 : 0), m = n + (a_interrupts ? 1 : 0); if (!n) return false;
    int k = m > 1 ? (int)rt_choose("step", m) : 0;
    if (k == n) { a_interrupts = false; a_ctrl(CTRL_C_EVENT); return true; }
    if (k == r.size()) { a_grant(); return true; }
    QString c = w_procs().at(r.at(k)).cmd; int x = a_exitCode(c); a_ended(c, x); w_end(r.at(k), x); return true;
}
int jom_main(int argc, char **argv);
static void a_body(void *p) { static char *av[] = { (char *)"jom", nullptr }; *(int *)p = jom_main(1, av); }
// the exit code of the program
static int a_run(const QStringList &args, const QStringList &env)
{
    a_args = args; a_env = env; rt_clearenv(); for (const QString &e : env) { int i = e.indexOf(QLatin1Char('=')); rt_setenv(e.left(i).toLatin1(), e.mid(i + 1).toLatin1()); }
    a_client = nullptr; a_created = -1; a_createdKey = a_usedKey = QString(); a_obtained = a_released = a_grants = a_taken = 0; g_options.maxNumberOfJobs = 4; g_options.isMaxNumberOfJobsSet = false; rt_stdout().clear(); rt_stderr().clear(); w_procs().clear(); w_pipes().clear();
    int c = -1, x = rt_run(a_body, &c); if (x >= 0) c = x; a_client = nullptr; sym_observe_int("exit", (uint64_t)(int64_t)c); return c;
}
// the environment block given to a process
static QStringList a_envOf(const WProc &p)
{
    QStringList l; const ushort *s = (const ushort *)p.env.constData(); int n = p.env.size() / 2; QString c; for (int i = 0; i < n; ++i) if (s[i]) c += QChar(s[i]); else { if (!c.isEmpty()) l << c; c = QString(); } if (!c.isEmpty()) l << c; return l;
}
static inline QStringList a_list(const QList<QByteArray> &l) { QStringList r; for (const QByteArray &b : l) r << QString::fromLatin1(b); return r; }
