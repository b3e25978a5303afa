// Win32 processes, pipes and the completion port as jom's Process class uses them; the harness decides when processes
// write, end and when the notifications are delivered. Included by one harness, used by both modes.
#pragma once
#include "rt.h"
#include "rt_int.h"
#include "rt_notifier.h"
#include <windows.h>
#include "iocompletionport.h"
struct WPipe { int hRead, hWrite; QByteArray data; bool writeOpen, readOpen, reading; char *buf; int len; ULONG_PTR key; OVERLAPPED *ov; };
struct WProc { int h; QString cmd, cwd; QByteArray env; bool hasEnv, running, noticed; int code; int out, err; /* read ends */ };
struct WCompl { ULONG_PTR key; OVERLAPPED *ov; int bytes; bool ok; };
static QList<WPipe> &w_pipes() { static QList<WPipe> l; return l; }
static QList<WProc> &w_procs() { static QList<WProc> l; return l; }
static QList<WCompl> &w_compl() { static QList<WCompl> l; return l; }
static int w_handle = 0x1000; static DWORD w_error;
static int w_rawOf(HANDLE h) { return (int)(intptr_t)h; }
static HANDLE w_h(int i) { return (HANDLE)(intptr_t)i; }
static WPipe *w_read(int h) { for (int i = 0; i < w_pipes().size(); ++i) if (w_pipes().at(i).hRead == h) return &w_pipes()[i]; return nullptr; }
static WPipe *w_write(int h) { for (int i = 0; i < w_pipes().size(); ++i) if (w_pipes().at(i).hWrite == h) return &w_pipes()[i]; return nullptr; }
static WProc *w_proc(int h) { for (int i = 0; i < w_procs().size(); ++i) if (w_procs().at(i).h == h) return &w_procs()[i]; return nullptr; }
// provided by the harness: may this command be started (false: CreateProcess fails)
static bool w_onStart(WProc &p);
static QString w_str(const WCHAR *s) { QString r; for (; *s; ++s) r += QChar((ushort)*s); return r; }
static void w_complete(WPipe *p)
{
    if (!p->reading) return;
    if (!p->data.isEmpty()) {
        int n = qMin(p->len, p->data.size()); for (int i = 0; i < n; ++i) p->buf[i] = p->data.at(i);
        p->data = p->data.mid(n); p->reading = false; WCompl c = { p->key, p->ov, n, true }; w_compl().append(c);
    } else if (!p->writeOpen) { p->reading = false; WCompl c = { p->key, p->ov, 0, false }; w_compl().append(c); }
}
// the process writes to its standard output (0) or error (1)
static inline void w_output(WProc &p, int chan, const QByteArray &b) { WPipe *q = w_read(chan ? p.err : p.out); if (!q) return; q->data += b; w_complete(q); }
static inline void w_exit(WProc &p, int code)
{
    p.running = false; p.code = code;
    for (int h : { p.out, p.err }) if (WPipe *q = w_read(h)) { q->writeOpen = false; w_complete(q); }
}
// the death notification of p can be delivered
static inline bool w_deathPending(const WProc &p) { if (p.running) return false; QList<RtNotifier> &l = rt_notifiers(); for (int i = 0; i < l.size(); ++i) if (l.at(i).enabled && w_rawOf(l.at(i).handle) == p.h) return true; return false; }
static inline void w_death(const WProc &p) { QList<RtNotifier> &l = rt_notifiers(); for (int i = 0; i < l.size(); ++i) if (l.at(i).enabled && w_rawOf(l.at(i).handle) == p.h) { rt_fireNotifier(l.at(i).n); return; } }
static inline void w_end(int i, int code) { w_exit(w_procs()[i], code); WProc p = w_procs().at(i); w_death(p); }
static inline QList<int> w_running() { QList<int> r; for (int i = 0; i < w_procs().size(); ++i) if (w_procs().at(i).running) r.append(i); return r; }
template <class Tag, typename Tag::type M> struct WRob { friend typename Tag::type w_get(Tag) { return M; } };
struct WRunTag { typedef void (NMakeFile::IoCompletionPort::*type)(); friend type w_get(WRunTag); };
template struct WRob<WRunTag, &NMakeFile::IoCompletionPort::run>;
static int w_portEnds; static int w_budget;   // completions the port thread may take now
bool rt_onMainThread() __attribute__((weak)); void rt_block() __attribute__((weak)); extern bool rt_otherThread;
// let the completion port thread handle the oldest completion
static inline void w_deliver() { if (w_compl().isEmpty()) return; w_budget = 1; bool o = rt_otherThread; rt_otherThread = true; (NMakeFile::IoCompletionPort::instance()->*w_get(WRunTag()))(); rt_otherThread = o; }
extern "C" {
BOOL WINAPI CloseHandle(HANDLE h)
{
    int i = w_rawOf(h);
    if (WPipe *p = w_read(i)) { p->readOpen = false; p->hRead = -p->hRead; }
    else if (WPipe *q = w_write(i)) { q->hWrite = -q->hWrite; }
    return TRUE;
}
BOOL WINAPI ConnectNamedPipe(HANDLE, LPOVERLAPPED) { return TRUE; }
HANDLE WINAPI CreateNamedPipeW(LPCWSTR, DWORD, DWORD, DWORD, DWORD, DWORD, DWORD, LPSECURITY_ATTRIBUTES)
{
    WPipe p; p.hRead = ++w_handle; p.hWrite = 0; p.writeOpen = true; p.readOpen = true; p.reading = false; p.buf = nullptr; p.len = 0; p.key = 0; p.ov = nullptr;
    w_pipes().append(p); return w_h(p.hRead);
}
HANDLE WINAPI CreateFileW(LPCWSTR, DWORD, DWORD, LPSECURITY_ATTRIBUTES, DWORD, DWORD, HANDLE) { WPipe &p = w_pipes().last(); p.hWrite = ++w_handle; return w_h(p.hWrite); }
HANDLE WINAPI CreateIoCompletionPort(HANDLE f, HANDLE, ULONG_PTR key, DWORD) { if (f == INVALID_HANDLE_VALUE) __atomic_store_n(&w_portEnds, 0, __ATOMIC_SEQ_CST); if (f != INVALID_HANDLE_VALUE) if (WPipe *p = w_read(w_rawOf(f))) p->key = key; return (HANDLE)0x900; }
BOOL WINAPI PeekNamedPipe(HANDLE h, PVOID, DWORD, PDWORD, PDWORD total, PDWORD) { WPipe *p = w_read(w_rawOf(h)); if (!p) return FALSE; if (total) *total = (DWORD)p->data.size(); return TRUE; }
BOOL WINAPI ReadFile(HANDLE h, LPVOID buf, DWORD n, LPDWORD, LPOVERLAPPED ov)
{
    WPipe *p = w_read(w_rawOf(h)); if (!p) { w_error = ERROR_INVALID_HANDLE; return FALSE; }
    if (p->data.isEmpty() && !p->writeOpen) { w_error = ERROR_BROKEN_PIPE; return FALSE; }
    p->reading = true; p->buf = (char *)buf; p->len = (int)n; p->ov = ov; w_complete(p); w_error = ERROR_IO_PENDING; return FALSE;
}
BOOL WINAPI GetQueuedCompletionStatus(HANDLE, LPDWORD bytes, PULONG_PTR key, LPOVERLAPPED *ov, DWORD)
{
    if (rt_onMainThread && !rt_onMainThread()) while (!__atomic_load_n(&w_portEnds, __ATOMIC_SEQ_CST)) rt_block();
    *bytes = 0; *key = 0; *ov = nullptr; if (rt_onMainThread && !rt_onMainThread()) return TRUE;
    if (w_budget <= 0 || w_compl().isEmpty()) return TRUE;   // ends the thread's loop; the next delivery starts it again
    --w_budget; WCompl c = w_compl().takeFirst(); *bytes = (DWORD)c.bytes; *key = c.key; *ov = c.ov; if (!c.ok) w_error = ERROR_BROKEN_PIPE; return c.ok;
}
BOOL WINAPI PostQueuedCompletionStatus(HANDLE, DWORD n, ULONG_PTR key, LPOVERLAPPED ov) { if (!n && !key && !ov) __atomic_store_n(&w_portEnds, 1, __ATOMIC_SEQ_CST); return TRUE; }
DWORD WINAPI GetLastError(void) { return w_error; }
BOOL WINAPI GetExitCodeProcess(HANDLE h, LPDWORD c) { WProc *p = w_proc(w_rawOf(h)); if (!p) return FALSE; *c = p->running ? STILL_ACTIVE : (DWORD)p->code; return TRUE; }
DWORD WINAPI WaitForSingleObject(HANDLE h, DWORD) { WProc *p = w_proc(w_rawOf(h)); return p && !p->running ? WAIT_OBJECT_0 : WAIT_TIMEOUT; }
BOOL WINAPI CreateProcessW(LPCWSTR, LPWSTR cmd, LPSECURITY_ATTRIBUTES, LPSECURITY_ATTRIBUTES, BOOL, DWORD, LPVOID env, LPCWSTR cwd, LPSTARTUPINFOW si, LPPROCESS_INFORMATION pi)
{
    WProc p; p.cmd = w_str(cmd); p.cwd = cwd ? w_str(cwd) : QString(); p.hasEnv = env != nullptr; p.running = true; p.noticed = false; p.code = 0;
    if (env) { const WCHAR *e = (const WCHAR *)env; int n = 0; while (e[n] || e[n + 1]) ++n; p.env = QByteArray((const char *)env, 2 * (n + 1)); }
    WPipe *o = w_write(w_rawOf(si->hStdOutput)), *r = w_write(w_rawOf(si->hStdError)); sym_assert(o && r, "a process gets its output channels");
    p.out = o->hRead; p.err = r->hRead; p.h = ++w_handle;
    if (!w_onStart(p)) { w_error = ERROR_FILE_NOT_FOUND; return FALSE; }
    w_procs().append(p); pi->hProcess = w_h(p.h); pi->hThread = w_h(++w_handle); pi->dwProcessId = 1; pi->dwThreadId = 1; return TRUE;
}
}
