// Native side of the runtime: replays one assignment of the symbolic inputs against the real build (real QtCore, ASan).
// usage: replay ENTRY CASEFILE OUTFILE     (the working directory is a scratch directory)
#include "rt.h"
#include "rt_int.h"
#include <QtCore/QDirIterator>
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/stat.h>
#include <errno.h>
#include <vector>
#include <string>
#include <map>
#include <mutex>
#include <atomic>
#include <pthread.h>
#undef exit
static FILE *g_out; static std::vector<std::pair<std::string, uint64_t>> g_vals; static size_t g_next;
#ifdef RT_DEMO
uint64_t demo_choice(const char *name);   // a demonstration plans its choices
#endif
static void finish(int code) { if (g_out) fflush(g_out); fflush(stdout); fflush(stderr); _exit(code); }
extern "C" {
uint64_t sym_new(const char *name, int width)
{
#ifdef RT_DEMO
    return demo_choice(name);
#endif
    if (g_next >= g_vals.size()) { fprintf(g_out, "END inputs exhausted at %s\n", name); finish(11); }
    if (g_vals[g_next].first != name) { fprintf(g_out, "END input mismatch: expected %s got %s\n", g_vals[g_next].first.c_str(), name); finish(13); }
    return g_vals[g_next++].second;
}
void sym_assume(int c) { if (!c) { fprintf(g_out, "END assumption\n"); finish(11); } }
void sym_assert(int c, const char *l) { if (!c) { fprintf(g_out, "ASSERT %s\n", l); finish(10); } }
void sym_fail(const char *l) { fprintf(g_out, "ASSERT %s\n", l); finish(10); _exit(10); }
void sym_reach(const char *l) { fprintf(g_out, "R %s\n", l); }
void sym_observe(const char *n, const void *p, size_t len) { fprintf(g_out, "o %s b ", n); for (size_t i = 0; i < len; ++i) fprintf(g_out, "%02x", ((const uint8_t *)p)[i]); fprintf(g_out, "\n"); }
void sym_observe_int(const char *n, uint64_t v) { fprintf(g_out, "o %s i %llu\n", n, (unsigned long long)v); }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_end(void) { fprintf(g_out, "END ok\n"); finish(0); _exit(0); }
int sym_is_symbolic(void) { return 0; }
int sym_is_const(uint64_t) { return 1; }
void sym_print(const void *p, size_t n) { fwrite(p, 1, n, stderr); fputc('\n', stderr); }
void sym_internal_error(const char *m) { fprintf(g_out, "END internal %s\n", m); finish(14); _exit(14); }

static jmp_buf *g_jb; static int g_code;
int rt_run(void (*fn)(void *), void *ctx)
{
    jmp_buf jb; jmp_buf *old = g_jb; g_jb = &jb;
    int r = -1;
    if (setjmp(jb) == 0) fn(ctx); else r = g_code;
    g_jb = old; return r;
}
void h_exit(int c) { if (!g_jb) { fprintf(g_out, "END exit %d\n", c); finish(15); } g_code = c; longjmp(*g_jb, 1); }
static QByteArray *chan(FILE *f) { if (f == stdout) return &rt_stdout(); if (f == stderr) return &rt_stderr(); return nullptr; }
int h_fputs(const char *s, FILE *f) { QByteArray *b = chan(f); if (!b) return fputs(s, f); b->append(s); return 1; }
int h_puts(const char *s) { rt_stdout().append(s); rt_stdout().append('\n'); return 1; }
int h_putchar(int c) { rt_stdout().append((char)c); return c; }
int h_fputc(int c, FILE *f) { QByteArray *b = chan(f); if (!b) return fputc(c, f); b->append((char)c); return c; }
int h_putc(int c, FILE *f) { return h_fputc(c, f); }
__attribute__((weak)) size_t h_fwrite(const void *p, size_t s, size_t n, FILE *f) { QByteArray *b = chan(f); if (!b) return fwrite(p, s, n, f); b->append((const char *)p, (int)(s * n)); return n; }
__attribute__((weak)) int h_fflush(FILE *) { return 0; }
__attribute__((weak)) FILE *h_fopen(const char *n, const char *m) { return fopen(n, m); }
__attribute__((weak)) FILE *h_freopen(const char *, const char *, FILE *) { return nullptr; }
__attribute__((weak)) int h_fclose(FILE *f) { return fclose(f); }
__attribute__((weak)) int *h___errno_location(void) { return __errno_location(); }
__attribute__((weak)) int h_system(const char *) { fprintf(g_out, "END internal system\n"); finish(14); return 0; }
static int vfmt(QByteArray *b, const char *f, va_list ap) { char tmp[65536]; int n = vsnprintf(tmp, sizeof tmp, f, ap); b->append(tmp, qMin(n, (int)sizeof tmp - 1)); return n; }
int h_printf(const char *f, ...) { va_list ap; va_start(ap, f); int n = vfmt(&rt_stdout(), f, ap); va_end(ap); return n; }
int h_fprintf(FILE *s, const char *f, ...) { va_list ap; va_start(ap, f); QByteArray *b = chan(s); int n = b ? vfmt(b, f, ap) : vfprintf(s, f, ap); va_end(ap); return n; }
__attribute__((ms_abi)) int wsprintfW(ushort *o, const ushort *f, ...) { int i = 0; while (f[i] && f[i] != '%') { o[i] = f[i]; ++i; } o[i] = 0; return i; }
}
QString rt_cwd() { return QDir::currentPath(); }
void rt_nativeMkdir(const QByteArray &p) { QDir().mkpath(QString::fromLatin1(p)); }
void rt_nativeTouch(const QByteArray &path, const QByteArray &content, bool exists) { if (QFile::exists(QString::fromLatin1(path)) != exists) rt_nativeWrite(path, content, exists); }
void rt_nativeWrite(const QByteArray &path, const QByteArray &content, bool exists)
{
    QString p = QString::fromLatin1(path);
    if (p.startsWith(QLatin1Char('/')) || p.contains(QLatin1String(".."))) return; // never outside the scratch directory
    if (!exists) { QFile::remove(p); return; }
    int i = p.lastIndexOf(QLatin1Char('/')); if (i > 0) QDir().mkpath(p.left(i));
    QFile f(p); if (f.open(QFile::WriteOnly)) { f.write(content); f.close(); }
}
bool rt_exists(const QByteArray &p) { return QFile::exists(QString::fromLatin1(p)); }
QByteArray rt_content(const QByteArray &p) { QFile f(QString::fromLatin1(p)); if (!f.open(QFile::ReadOnly)) return QByteArray(); return f.readAll(); }
// ---- event delivery: deterministic, with the same order as the model (posted events, then a step of the environment, then timers)
void rt_dispInstall();
static pthread_t g_main;
void rt_sleep() { usleep(200); }
bool rt_otherThread;
void rt_block() { usleep(1000); }
bool rt_onMainThread() { return pthread_equal(pthread_self(), g_main); }
// ---- system semaphores (jom's calls are redirected here)
QStringList rt_arguments() __attribute__((weak)); QStringList rt_systemEnvironment() __attribute__((weak)); void rt_threadStarted(QThread *) __attribute__((weak));
int rt_semAcquire(const QString &key) __attribute__((weak));
void rt_semRelease(const QString &key, int n) __attribute__((weak));
void rt_semCreate(const QString &key, int n, bool create) __attribute__((weak));
static std::map<const void *, QString> g_sem; static std::mutex g_semLock;
static QString semKey(const void *t) { std::lock_guard<std::mutex> l(g_semLock); return g_sem[t]; }
extern "C" {
void h_semCtor(void *t, const QString &key, int n, int m) __asm__("h__ZN16QSystemSemaphoreC1ERK7QStringiNS_10AccessModeE");
void h_semCtor(void *t, const QString &key, int n, int m) { { std::lock_guard<std::mutex> l(g_semLock); g_sem[t] = key; } if (rt_semCreate) rt_semCreate(key, n, m == 1); }
void h_semDtor(void *) __asm__("h__ZN16QSystemSemaphoreD1Ev");
void h_semDtor(void *) {}
bool h_semAcq(void *t) __asm__("h__ZN16QSystemSemaphore7acquireEv");
bool h_semAcq(void *t) { if (!rt_semAcquire) sym_internal_error("semaphore"); return rt_semAcquire(semKey(t)); }
bool h_semRel(void *t, int n) __asm__("h__ZN16QSystemSemaphore7releaseEi");
bool h_semRel(void *t, int n) { if (!rt_semRelease) sym_internal_error("semaphore"); rt_semRelease(semKey(t), n); return true; }
int h_semErr(const void *) __asm__("h__ZNK16QSystemSemaphore5errorEv");
int h_semErr(const void *) { return 0; }
// ---- the order of directory entries is that of the names, as in the model and on NTFS
struct DirIt { QStringList l; int i; };
static std::map<const void *, DirIt> g_dir;
extern "C" {
void h_dirCtor(void *t, const QString &p, const QStringList &n, QDir::Filters f, QDirIterator::IteratorFlags g) __asm__("h__ZN12QDirIteratorC1ERK7QStringRK11QStringList6QFlagsIN4QDir6FilterEES6_INS_12IteratorFlagEE");
void h_dirCtor(void *t, const QString &p, const QStringList &n, QDir::Filters f, QDirIterator::IteratorFlags g) { QDirIterator *d = new (t) QDirIterator(p, n, f, g); DirIt x; x.i = 0; while (d->hasNext()) x.l += d->next(); x.l.sort(); g_dir[t] = x; }
bool h_dirHas(const void *t) __asm__("h__ZNK12QDirIterator7hasNextEv");
bool h_dirHas(const void *t) { if (!g_dir.count(t)) return ((const QDirIterator *)t)->hasNext(); const DirIt &x = g_dir[t]; return x.i < x.l.size(); }
}
static QString dirCur(const void *t) { const DirIt &x = g_dir[t]; return x.i ? x.l.at(x.i - 1) : QString(); }
QString h_dirNext(void *t) __asm__("h__ZN12QDirIterator4nextEv");
QString h_dirNext(void *t) { if (!g_dir.count(t)) return ((QDirIterator *)t)->next(); ++g_dir[t].i; return dirCur(t); }
QString h_dirPath(const void *t) __asm__("h__ZNK12QDirIterator8filePathEv");
QString h_dirPath(const void *t) { return dirCur(t); }
QString h_dirName(const void *t) __asm__("h__ZNK12QDirIterator8fileNameEv");
QString h_dirName(const void *t) { return QFileInfo(dirCur(t)).fileName(); }
QFileInfo h_dirInfo(const void *t) __asm__("h__ZNK12QDirIterator8fileInfoEv");
QFileInfo h_dirInfo(const void *t) { return QFileInfo(dirCur(t)); }
// ---- the application object of jom: exec() and exit() are those of the real application object of this program
void h_appCtor(QObject *t, int &, char **, int) __asm__("h__ZN16QCoreApplicationC2ERiPPci");
void h_appCtor(QObject *t, int &, char **, int) { new (t) QObject; }
void h_appDtor(QObject *t) __asm__("h__ZN16QCoreApplicationD2Ev");
void h_appDtor(QObject *t) { t->QObject::~QObject(); }
QStringList h_appArgs() __asm__("h__ZN16QCoreApplication9argumentsEv");
QStringList h_appArgs() { return rt_arguments ? rt_arguments() : QStringList(); }
QStringList h_sysEnv() __asm__("h__ZN8QProcess17systemEnvironmentEv");
QStringList h_sysEnv() { return rt_systemEnvironment ? rt_systemEnvironment() : QStringList(); }
QString rt_appPath() __attribute__((weak)) __asm__("_Z10rt_appPathv"); QString rt_currentPath() __attribute__((weak)) __asm__("_Z14rt_currentPathv");
QString h_appPath() __asm__("h__ZN16QCoreApplication19applicationFilePathEv");
QString h_appPath() { return rt_appPath ? rt_appPath() : QStringLiteral("/app/jom.exe"); }
QString h_curPath() __asm__("h__ZN4QDir11currentPathEv");
QString h_curPath() { return rt_currentPath ? rt_currentPath() : QDir::currentPath(); }
void h_setCodec(QTextCodec *) __asm__("h__ZN10QTextCodec17setCodecForLocaleEPS_");
void h_setCodec(QTextCodec *) {}
void h_thrStart(QThread *t, QThread::Priority p) __asm__("h__ZN7QThread5startENS_8PriorityE");
void h_thrStart(QThread *t, QThread::Priority p) { if (rt_threadStarted) rt_threadStarted(t); t->start(p); }
// ---- mutexes of jom
void rt_lockHook() __attribute__((weak)) __asm__("_Z11rt_lockHookv");
void h_mlock(QMutex *m) __asm__("h__ZN6QMutex4lockEv");
void h_mlock(QMutex *m) { if (rt_lockHook && rt_onMainThread()) rt_lockHook(); m->lock(); }
void h_munlock(QMutex *m) __asm__("h__ZN6QMutex6unlockEv");
void h_munlock(QMutex *m) { m->unlock(); if (rt_lockHook && rt_onMainThread()) rt_lockHook(); }
qint64 rt_elapsed() __attribute__((weak)) __asm__("_Z10rt_elapsedv");
qint64 h_elapsed(const QElapsedTimer *) __asm__("h__ZNK13QElapsedTimer7elapsedEv");
qint64 h_elapsed(const QElapsedTimer *) { static qint64 t = 0; return rt_elapsed ? rt_elapsed() : ++t; }
}
static void onMsg(QtMsgType t, const QMessageLogContext &, const QString &m)
{
    if (t == QtFatalMsg) { fprintf(g_out, "ASSERT qFatal\n"); finish(10); }
    if (t == QtWarningMsg) ++rt_warnings;
}
int main(int argc, char **argv)
{
#ifdef RT_DEMO
    static char *demoArgs[] = { argv[0], (char *)"E_demo", (char *)"/dev/null", (char *)"/dev/stderr" }; argc = 4; argv = demoArgs;
#endif
    if (argc < 4) return 20;
    g_out = fopen(argv[3], "w"); if (!g_out) return 21;
    setvbuf(g_out, nullptr, _IOLBF, 0);
    FILE *f = fopen(argv[2], "r"); if (!f) return 22;
    char line[4096];
    while (fgets(line, sizeof line, f)) { char nm[256]; int w; unsigned long long v; if (sscanf(line, "v %255s %d %llu", nm, &w, &v) == 3) g_vals.push_back({ nm, v }); }
    fclose(f);
    mkdir("tmp", 0700);
    qInstallMessageHandler(onMsg);
    int ac = 1; char *av[] = { argv[0], nullptr };
    g_main = pthread_self(); rt_dispInstall();
    QCoreApplication app(ac, av);
    void (*e)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!e) { fprintf(g_out, "END no entry\n"); finish(23); }
    e();
    fprintf(g_out, "END ok\n"); finish(0); return 0;
}
