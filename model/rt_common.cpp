#include "rt.h"
#include "rt_int.h"
#include <windows.h>

// ---------------------------------------------------------------- helpers
uint8_t rt_oneOf(const char *name, const char *set)
{
    uint8_t c = rt_byte(name); int ok = 0;
    for (const char *p = set; *p; ++p) ok |= (c == (uint8_t)*p);
    sym_assume(ok); return c;
}
uint32_t rt_choose(const char *name, uint32_t n)
{
    uint32_t v = (uint32_t)sym_new(name, 8); sym_assume(v < n); return (uint32_t)sym_concretize(v);
}
QString rt_str(const char *name, const char *set, int len)
{
    QString s(len, QChar(u'x'));
    for (int i = 0; i < len; ++i) s[i] = QChar((ushort)rt_oneOf(name, set));
    return s;
}
QByteArray rt_bytes(const char *name, const char *set, int len)
{
    QByteArray s(len, 'x');
    for (int i = 0; i < len; ++i) s[i] = (char)rt_oneOf(name, set);
    return s;
}
void rt_observe(const char *name, const QString &s) { sym_observe(name, s.constData(), (size_t)s.size() * 2); }
void rt_observe(const char *name, const QByteArray &s) { sym_observe(name, s.constData(), (size_t)s.size()); }
bool rt_eq(const QString &a, const QString &b)
{
    if (a.size() != b.size()) return false;
    const QChar *p = a.constData(), *q = b.constData(); int d = 0;
    for (int i = 0, n = a.size(); i < n; ++i) d |= p[i].unicode() ^ q[i].unicode();
    return d == 0;
}
bool rt_eqb(const QByteArray &a, const QByteArray &b)
{
    if (a.size() != b.size()) return false;
    const char *p = a.constData(), *q = b.constData(); int d = 0;
    for (int i = 0, n = a.size(); i < n; ++i) d |= p[i] ^ q[i];
    return d == 0;
}

// ---------------------------------------------------------------- files
QList<RtFile> &rt_files() { static QList<RtFile> l; return l; }
int rt_statCount = 0, rt_setenvCount = 0, rt_warnings = 0;
RtFile *rt_find(const QByteArray &path)
{
    QList<RtFile> &l = rt_files();
    for (int i = 0; i < l.size(); ++i) if (rt_eqb(l.at(i).path, path)) return &l[i];
    return nullptr;
}
QByteArray rt_relPath(const QString &p)  // path below the working directory, or the absolute path itself
{
    QByteArray b = p.toLatin1();
    if (b.startsWith("\\\\?\\")) b = b.mid(4);
    QByteArray c = rt_cwd().toLatin1() + '/';
    if (b.startsWith(c)) b = b.mid(c.size());
    while (b.startsWith("./")) b = b.mid(2);
    return b;
}
void rt_touch(const QByteArray &path, bool exists, quint64 mtime)
{
    RtFile *f = rt_find(path);
    if (!f) { RtFile n; n.path = path; n.isDir = false; n.exists = false; rt_files().append(n); f = &rt_files().last(); }
    f->exists = exists; f->mtime = mtime; if (!f->isDir) rt_nativeTouch(path, f->content, exists);
}
void rt_file(const QByteArray &path, const QByteArray &content, bool exists, quint64 mtime)
{
    rt_touch(path, exists, mtime);
    RtFile *f = rt_find(path); f->content = content;
    rt_nativeWrite(path, content, exists);
}
void rt_dir(const QByteArray &path)
{
    RtFile *f = rt_find(path);
    if (!f) { RtFile n; n.path = path; rt_files().append(n); f = &rt_files().last(); }
    f->isDir = f->exists = true; f->mtime = 1; rt_nativeMkdir(path);
}

// ---------------------------------------------------------------- console
QByteArray &rt_stdout() { static QByteArray b; return b; }
QByteArray &rt_stderr() { static QByteArray b; return b; }

// ---------------------------------------------------------------- environment
struct RtEnv { QByteArray name; QString value; };
static QList<RtEnv> &envTable() { static QList<RtEnv> l; return l; }
static bool envNameEq(const QByteArray &a, const QString &b) { return QString::fromLatin1(a).compare(b, Qt::CaseInsensitive) == 0; }
void rt_setenv(const QByteArray &name, const QByteArray &value) { RtEnv e; e.name = name; e.value = QString::fromLatin1(value); envTable().append(e); }
void rt_clearenv() { envTable().clear(); }
QString rt_getenv(const QByteArray &name)
{
    for (const RtEnv &e : qAsConst(envTable())) if (envNameEq(e.name, QString::fromLatin1(name))) return e.value;
    return QString();
}

// ---------------------------------------------------------------- Win32 (the contract jom relies on)
static QString w2q(const WCHAR *s) { QString r; for (; *s; ++s) r += QChar((ushort)*s); return r; }
extern "C" {
__attribute__((weak)) BOOL WINAPI GetFileAttributesExW(LPCWSTR name, GET_FILEEX_INFO_LEVELS, LPVOID out)
{
    ++rt_statCount;
    RtFile *f = rt_find(rt_relPath(w2q(name)));
    if (!f || !f->exists) return FALSE;
    WIN32_FILE_ATTRIBUTE_DATA *d = (WIN32_FILE_ATTRIBUTE_DATA *)out;
    memset(d, 0, sizeof *d);
    d->dwFileAttributes = f->isDir ? FILE_ATTRIBUTE_DIRECTORY : FILE_ATTRIBUTE_NORMAL;
    d->ftLastWriteTime.dwLowDateTime = (DWORD)f->mtime;
    d->ftLastWriteTime.dwHighDateTime = (DWORD)(f->mtime >> 32);
    return TRUE;
}
LONG WINAPI CompareFileTime(const FILETIME *a, const FILETIME *b)
{
    quint64 x = ((quint64)a->dwHighDateTime << 32) | a->dwLowDateTime, y = ((quint64)b->dwHighDateTime << 32) | b->dwLowDateTime;
    return (LONG)(x > y) - (LONG)(x < y);
}
void WINAPI GetSystemTime(LPSYSTEMTIME t) { memset(t, 0, sizeof *t); t->wYear = 2020; t->wMonth = 1; t->wDay = 1; }
BOOL WINAPI SystemTimeToFileTime(const SYSTEMTIME *, LPFILETIME f) { f->dwHighDateTime = 0x01d00000; f->dwLowDateTime = 0; return TRUE; }
BOOL WINAPI FileTimeToSystemTime(const FILETIME *, LPSYSTEMTIME t) { memset(t, 0, sizeof *t); return TRUE; }
BOOL WINAPI SystemTimeToTzSpecificLocalTime(const TIME_ZONE_INFORMATION *, const SYSTEMTIME *, LPSYSTEMTIME t) { memset(t, 0, sizeof *t); return TRUE; }
__attribute__((weak)) DWORD WINAPI GetTickCount(void) { static DWORD t = 1000; return t += 7; }
DWORD WINAPI GetCurrentProcessId(void) { return 4711; }
DWORD WINAPI GetTempPathW(DWORD, LPWSTR buf)
{
    QString s = rt_cwd() + QLatin1String("/tmp/"); int i = 0;
    for (; i < s.size(); ++i) buf[i] = s.at(i).unicode();
    buf[i] = 0; return (DWORD)i;
}
DWORD WINAPI GetEnvironmentVariableW(LPCWSTR name, LPWSTR buf, DWORD n)
{
    QString k = w2q(name);
    for (const RtEnv &e : qAsConst(envTable())) if (envNameEq(e.name, k)) {
        if ((DWORD)e.value.size() + 1 > n) return (DWORD)e.value.size() + 1;
        int i = 0; for (; i < e.value.size(); ++i) buf[i] = e.value.at(i).unicode();
        buf[i] = 0; return (DWORD)i;
    }
    return 0;
}
DWORD WINAPI GetEnvironmentVariableA(LPCSTR name, LPSTR buf, DWORD n)
{
    for (const RtEnv &e : qAsConst(envTable())) if (envNameEq(e.name, QString::fromLatin1(name))) {
        if ((DWORD)e.value.size() + 1 > n) return (DWORD)e.value.size() + 1;
        QByteArray b = e.value.toLatin1(); int i = 0; for (; i < b.size(); ++i) buf[i] = b.at(i);
        buf[i] = 0; return (DWORD)i;
    }
    return 0;
}
BOOL WINAPI SetEnvironmentVariableW(LPCWSTR name, LPCWSTR value)
{
    ++rt_setenvCount;
    QString k = w2q(name);
    for (RtEnv &e : envTable()) if (envNameEq(e.name, k)) { e.value = w2q(value); return TRUE; }
    RtEnv e; e.name = k.toLatin1(); e.value = w2q(value); envTable().append(e); return TRUE;
}
// Process creation and pipes: replaced by harnesses that need them.
__attribute__((weak)) BOOL WINAPI CloseHandle(HANDLE) { return TRUE; }
__attribute__((weak)) BOOL WINAPI ConnectNamedPipe(HANDLE, LPOVERLAPPED) { return TRUE; }
__attribute__((weak)) HANDLE WINAPI CreateFileW(LPCWSTR, DWORD, DWORD, LPSECURITY_ATTRIBUTES, DWORD, DWORD, HANDLE) { return INVALID_HANDLE_VALUE; }
__attribute__((weak)) HANDLE WINAPI CreateIoCompletionPort(HANDLE, HANDLE, ULONG_PTR, DWORD) { return (HANDLE)0x1000; }
__attribute__((weak)) HANDLE WINAPI CreateNamedPipeW(LPCWSTR, DWORD, DWORD, DWORD, DWORD, DWORD, DWORD, LPSECURITY_ATTRIBUTES) { return INVALID_HANDLE_VALUE; }
__attribute__((weak)) BOOL WINAPI CreateProcessW(LPCWSTR, LPWSTR, LPSECURITY_ATTRIBUTES, LPSECURITY_ATTRIBUTES, BOOL, DWORD, LPVOID, LPCWSTR, LPSTARTUPINFOW, LPPROCESS_INFORMATION) { return FALSE; }
__attribute__((weak)) BOOL WINAPI GetExitCodeProcess(HANDLE, LPDWORD) { return FALSE; }
__attribute__((weak)) DWORD WINAPI GetLastError(void) { return 0; }
__attribute__((weak)) BOOL WINAPI GetQueuedCompletionStatus(HANDLE, LPDWORD, PULONG_PTR, LPOVERLAPPED *, DWORD) { return FALSE; }
__attribute__((weak)) BOOL WINAPI PeekNamedPipe(HANDLE, PVOID, DWORD, PDWORD, PDWORD, PDWORD) { return FALSE; }
__attribute__((weak)) BOOL WINAPI PostQueuedCompletionStatus(HANDLE, DWORD, ULONG_PTR, LPOVERLAPPED) { return TRUE; }
__attribute__((weak)) BOOL WINAPI ReadFile(HANDLE, LPVOID, DWORD, LPDWORD, LPOVERLAPPED) { return FALSE; }
}
