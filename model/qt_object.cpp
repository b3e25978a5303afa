// Model of QObject (ownership, signals and slots, posted calls) and of the small QtCore classes jom uses around it.
#include <QtCore/QtCore>
#include <QWinEventNotifier>
#include "sym.h"
#include "rt.h"
#include "qt_obj.h"

QObjectData::~QObjectData() {}
QMetaObject *QObjectData::dynamicMetaObject() const { return nullptr; }
static const uint md_none[] = { 8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 };
void QObject::qt_static_metacall(QObject *, QMetaObject::Call, int, void **) {}
const QMetaObject QObject::staticMetaObject = { { nullptr, nullptr, md_none, nullptr, nullptr, nullptr } };

struct Conn { const QObject *snd; const QMetaObject *smo; int sidx; QObject *rcv; const QMetaObject *rmo; int ridx; QtPrivate::QSlotObjectBase *slot; int type; };   // type: Qt::ConnectionType
static QThread *g_thread;   // the thread whose events are being delivered; null: the main thread
struct Posted { QObject *rcv; const QMetaObject *mo; int idx; QtPrivate::QSlotObjectBase *slot; quint64 args[4]; int nargs; bool timer; QThread *thr; };
static QList<Conn> &conns() { static QList<Conn> l; return l; }
static QList<Posted> &posted() { static QList<Posted> l; return l; }

QObject::QObject(QObject *parent) : d_ptr(new M_ObjData)
{
    QObjectData *d = d_ptr.data();
    d->q_ptr = this; d->parent = parent; d->isWidget = 0; d->blockSig = 0; d->wasDeleted = 0; d->isDeletingChildren = 0; d->sendChildEvents = 0; d->receiveChildEvents = 0; d->isWindow = 0; d->deleteLaterCalled = 0; d->postedEvents = 0; d->metaObject = nullptr;
    if (parent) M_Access::d(parent)->children.append(this);
}
QObject::~QObject()
{
    QObjectData *d = d_ptr.data(); d->wasDeleted = 1;
    QList<Conn> &c = conns();
    for (int i = c.size(); i-- > 0;) if (c.at(i).snd == this || c.at(i).rcv == this) c.removeAt(i);
    QList<Posted> &p = posted();
    for (int i = p.size(); i-- > 0;) if (p.at(i).rcv == this) p.removeAt(i);
    while (!d->children.isEmpty()) { QObject *o = d->children.takeFirst(); M_Access::d(o)->parent = nullptr; delete o; }
    if (d->parent) M_Access::d(d->parent)->children.removeAll(this);
}
void QObject::setParent(QObject *p) { QObjectData *d = d_ptr.data(); if (d->parent) M_Access::d(d->parent)->children.removeAll(this); d->parent = p; if (p) M_Access::d(p)->children.append(this); }
void QObject::childEvent(QChildEvent *) {}
void QObject::connectNotify(const QMetaMethod &) {}
void QObject::customEvent(QEvent *) {}
void QObject::disconnectNotify(const QMetaMethod &) {}
bool QObject::event(QEvent *) { return false; }
bool QObject::eventFilter(QObject *, QEvent *) { return false; }
void QObject::timerEvent(QTimerEvent *) {}
void QObject::setObjectName(const QString &) {}
void QObject::moveToThread(QThread *t) { M_Access::d(this)->thr = t; }
int QObject::qt_metacall(QMetaObject::Call, int i, void **) { return i; }
void *QObject::qt_metacast(const char *n) { return !strcmp(n, "QObject") ? this : nullptr; }
const QMetaObject *QObject::metaObject() const { return &staticMetaObject; }
void QObject::deleteLater() { sym_internal_error("deleteLater"); }
bool QObject::blockSignals(bool b) noexcept { bool o = d_ptr->blockSig; d_ptr->blockSig = b; return o; }

// ---- meta object data (as written by moc)
static const char *moStr(const QMetaObject *mo, int i) { const QByteArrayData *b = mo->d.stringdata + i; return (const char *)b + b->offset; }
static int methodCount(const QMetaObject *mo) { return (int)mo->d.data[4]; }
// name of at most n characters and argument count
static bool findMethod(const QMetaObject *mo, const char *name, int n, int argc, const QMetaObject **rmo, int *idx)
{
    for (; mo; mo = mo->d.superdata) {
        const uint *d = mo->d.data; if (!mo->d.stringdata) continue;
        for (int i = 0; i < methodCount(mo); ++i) {
            const uint *m = d + d[5] + 5 * i; const char *s = moStr(mo, (int)m[0]);
            if ((argc < 0 || (int)m[1] == argc) && !strncmp(s, name, n) && !s[n]) { *rmo = mo; *idx = i; return true; }
        }
    }
    return false;
}
static void parseSig(const char *s, int *n, int *argc)
{
    int k = 0; while (s[k] && s[k] != '(') ++k;
    *n = k; int c = 0; bool any = false; int depth = 0;
    for (const char *p = s + k + (s[k] ? 1 : 0); *p; ++p) { if (*p == '<') ++depth; if (*p == '>') --depth; if (*p == ')') break; if (*p != ' ') any = true; if (*p == ',' && !depth) ++c; }
    *argc = any ? c + 1 : 0;
}
// arguments of queued calls are copied; their types are found in the meta data of the method
static quint64 copyArg(const QMetaObject *mo, int idx, int k, void *v)
{
    const uint *d = mo->d.data, *m = d + d[5] + 5 * idx; uint t = d[m[2] + 1 + k];
    if (t & 0x80000000u) { const char *n = moStr(mo, (int)(t & 0x7fffffffu)); int l = (int)strlen(n); if (l && n[l - 1] == '*') return (quint64)*(quintptr *)v; if (*n == 'Q' && !strstr(n, "::")) sym_internal_error("queued call with arguments"); return (quint64)*(int *)v; }
    switch (t) {
    case QMetaType::Bool: return *(bool *)v;
    case QMetaType::Int: case QMetaType::UInt: return (quint64)*(uint *)v;
    case QMetaType::Long: case QMetaType::ULong: return (quint64)*(ulong *)v;
    case QMetaType::LongLong: case QMetaType::ULongLong: case QMetaType::Double: return *(quint64 *)v;
    case QMetaType::VoidStar: return (quint64)*(quintptr *)v;
    case QMetaType::QString: { quint64 r = 0; new (&r) QString(*(QString *)v); return r; }
    case QMetaType::QByteArray: { quint64 r = 0; new (&r) QByteArray(*(QByteArray *)v); return r; }
    case QMetaType::QStringList: { quint64 r = 0; new (&r) QStringList(*(QStringList *)v); return r; }
    default: sym_internal_error("queued call with arguments"); return 0;
    }
}
static void post(QObject *r, const QMetaObject *mo, int idx, QtPrivate::QSlotObjectBase *slot, void **a, int nargs, bool timer = false, const QMetaObject *tmo = nullptr, int tidx = 0)
{
    Posted p; p.rcv = r; p.mo = mo; p.idx = idx; p.slot = slot; p.nargs = nargs; p.timer = timer; p.thr = M_Access::d(r)->thr;
    for (int i = 0; i < nargs && i < 4; ++i) p.args[i] = copyArg(tmo, tidx, i, a[i + 1]);
    posted().append(p);
}
static void callSlot(QObject *r, const QMetaObject *mo, int idx, QtPrivate::QSlotObjectBase *slot, void **a)
{
    if (slot) slot->call(r, a); else mo->d.static_metacall(r, QMetaObject::InvokeMetaMethod, idx, a);
}
static bool deliver(QThread *t, bool timer)
{
    QList<Posted> &p = posted();
    int k = 0; while (k < p.size() && (p.at(k).timer != timer || p.at(k).thr != t)) ++k;
    if (k == p.size()) return false;
    Posted x = p.takeAt(k); void *a[5] = { nullptr, nullptr, nullptr, nullptr, nullptr }; for (int i = 0; i < x.nargs && i < 4; ++i) a[i + 1] = &x.args[i];
    QThread *o = g_thread; g_thread = t; callSlot(x.rcv, x.mo, x.idx, x.slot, a); g_thread = o;
    return true;
}
void rt_pump() { while (deliver(nullptr, false)) {} }
bool rt_fireTimer() { return deliver(nullptr, true); }
// one event of a thread other than the main thread
bool rt_threadStep()
{
    QList<Posted> &p = posted();
    for (int i = 0; i < p.size(); ++i) if (p.at(i).thr && !p.at(i).timer && M_Access::d(p.at(i).thr)->ext) return deliver(p.at(i).thr, false);
    return false;
}
QMetaObject::Connection::Connection() : d_ptr(nullptr) {}
QMetaObject::Connection::~Connection() {}
QMetaObject::Connection QObject::connect(const QObject *s, const char *sig, const QObject *r, const char *slot, Qt::ConnectionType t)
{
    Conn c; int n, argc; c.snd = s; c.rcv = const_cast<QObject *>(r); c.slot = nullptr; c.type = t & 3;
    parseSig(sig + 1, &n, &argc);
    bool okS = findMethod(s->metaObject(), sig + 1, n, argc, &c.smo, &c.sidx);
    parseSig(slot + 1, &n, &argc);
    bool okR = true;
    if (qobject_cast<const QEventLoop *>(r) && n == 4 && !strncmp(slot + 1, "quit", 4)) { c.rmo = &QEventLoop::staticMetaObject; c.ridx = 0; }
    else okR = findMethod(r->metaObject(), slot + 1, n, argc, &c.rmo, &c.ridx);
    if (okS && okR) conns().append(c); else { ++rt_warnings; }
    return QMetaObject::Connection();
}
QMetaObject::Connection QObject::connectImpl(const QObject *s, void **signal, const QObject *r, void **, QtPrivate::QSlotObjectBase *slotObj, Qt::ConnectionType t, const int *, const QMetaObject *smo)
{
    Conn c; c.snd = s; c.rcv = const_cast<QObject *>(r); c.slot = slotObj; c.rmo = nullptr; c.ridx = -1; c.type = t & 3;
    for (const QMetaObject *mo = smo; mo; mo = mo->d.superdata) {
        int idx = -1; void *a[2] = { &idx, signal };
        if (!mo->d.static_metacall) continue;
        mo->d.static_metacall(nullptr, QMetaObject::IndexOfMethod, 0, a);
        if (idx >= 0) { c.smo = mo; c.sidx = idx; conns().append(c); return QMetaObject::Connection(); }
    }
    ++rt_warnings;
    return QMetaObject::Connection();
}
void QMetaObject::activate(QObject *s, const QMetaObject *mo, int idx, void **a)
{
    if (M_Access::d(s)->blockSig) return;
    QList<Conn> l = conns();
    for (int i = 0; i < l.size(); ++i) {
        const Conn &c = l.at(i);
        if (c.snd != s || c.smo != mo || c.sidx != idx) continue;
        bool still = false; const QList<Conn> &now = conns();
        for (int k = 0; k < now.size() && !still; ++k) still = now.at(k).snd == c.snd && now.at(k).rcv == c.rcv && now.at(k).smo == c.smo && now.at(k).sidx == c.sidx && now.at(k).slot == c.slot && now.at(k).ridx == c.ridx;
        if (!still) continue;
        if (c.type == Qt::QueuedConnection || (c.type == Qt::AutoConnection && M_Access::d(c.rcv)->thr != g_thread)) post(c.rcv, c.rmo, c.ridx, c.slot, a, (int)mo->d.data[mo->d.data[5] + 5 * idx + 1], false, mo, idx); else callSlot(c.rcv, c.rmo, c.ridx, c.slot, a);
    }
}
bool QMetaObject::invokeMethod(QObject *o, const char *member, Qt::ConnectionType t, QGenericReturnArgument, QGenericArgument v0, QGenericArgument v1, QGenericArgument v2, QGenericArgument v3, QGenericArgument, QGenericArgument, QGenericArgument, QGenericArgument, QGenericArgument, QGenericArgument)
{
    const QMetaObject *mo; int idx; int argc = 0;
    const void *vs[4] = { v0.name() ? v0.data() : nullptr, v1.name() ? v1.data() : nullptr, v2.name() ? v2.data() : nullptr, v3.name() ? v3.data() : nullptr };
    if (v0.name() && *v0.name()) ++argc; if (v1.name() && *v1.name()) ++argc; if (v2.name() && *v2.name()) ++argc; if (v3.name() && *v3.name()) ++argc;
    if (!findMethod(o->metaObject(), member, (int)strlen(member), argc, &mo, &idx)) { ++rt_warnings; return false; }
    void *a[5] = { nullptr, const_cast<void *>(vs[0]), const_cast<void *>(vs[1]), const_cast<void *>(vs[2]), const_cast<void *>(vs[3]) };
    if ((t & 3) == Qt::QueuedConnection || ((t & 3) == Qt::AutoConnection && M_Access::d(o)->thr != g_thread)) post(o, mo, idx, nullptr, a, argc, false, mo, idx); else callSlot(o, mo, idx, nullptr, a);
    return true;
}
QObject *QMetaObject::cast(QObject *o) const { if (!o) return nullptr; for (const QMetaObject *m = o->metaObject(); m; m = m->d.superdata) if (m == this) return o; return nullptr; }
const QObject *QMetaObject::cast(const QObject *o) const { return cast(const_cast<QObject *>(o)); }
const char *QMetaObject::className() const { return "QObject"; }
QByteArray QMetaObject::normalizedType(const char *t) { return QByteArray(t); }
int QMetaType::registerNormalizedType(const class QByteArray &, void (*)(void *), void *(*)(void *, const void *), int, TypeFlags, const ::QMetaObject *) { return 1025; }
void QTimer::singleShot(int, const QObject *r, const char *member)
{
    const QMetaObject *mo; int idx, n, argc; parseSig(member + 1, &n, &argc);
    if (!findMethod(r->metaObject(), member + 1, n, argc, &mo, &idx)) { ++rt_warnings; return; }
    post(const_cast<QObject *>(r), mo, idx, nullptr, nullptr, 0, true);
}

// ---- event loop: the harness provides rt_loopExec (weak default: deliver posted events until quit)
static QList<QEventLoop *> &loops() { static QList<QEventLoop *> l; return l; }
struct LoopExt { bool quit; };
QEventLoop::QEventLoop(QObject *p) : QObject(p) { LoopExt *e = new LoopExt; e->quit = false; m_objData(this)->ext = e; }
QEventLoop::~QEventLoop() { delete (LoopExt *)m_objData(this)->ext; }
void QEventLoop::quit() { ((LoopExt *)m_objData(this)->ext)->quit = true; }
void QEventLoop::exit(int) { quit(); }
bool rt_loopStep() __attribute__((weak));      // let the environment make one step; false: nothing can ever happen again
static bool g_quitNow;
int QEventLoop::exec(ProcessEventsFlags)
{
    LoopExt *e = (LoopExt *)m_objData(this)->ext; e->quit = false; if (g_quitNow) return -1;
    loops().append(this);
    while (!e->quit) {
        rt_pump(); if (e->quit) break;
        if ((!rt_loopStep || !rt_loopStep()) && !rt_fireTimer()) sym_fail("event loop waits for an event that can never arrive");
    }
    loops().removeLast();
    return 0;
}
// ---- the application object: QCoreApplication::exit ends all running event loops
static int g_exitCode; QCoreApplication *QCoreApplication::self = nullptr;
QCoreApplication::QCoreApplication(int &, char **, int) : QObject(nullptr) { self = this; }
QCoreApplication::~QCoreApplication() { self = nullptr; }
bool QCoreApplication::event(QEvent *) { return false; }
bool QCoreApplication::notify(QObject *, QEvent *) { return false; }
bool QCoreApplication::compressEvent(QEvent *, QObject *, QPostEventList *) { return false; }
int QCoreApplication::exec() { g_quitNow = false; g_exitCode = 0; QEventLoop l; l.exec(); g_quitNow = false; return g_exitCode; }
void QCoreApplication::exit(int c) { if (!self) return; g_quitNow = true; g_exitCode = c; QList<QEventLoop *> &l = loops(); for (int i = 0; i < l.size(); ++i) l.at(i)->quit(); }
QStringList rt_arguments() __attribute__((weak)); QStringList rt_systemEnvironment() __attribute__((weak)); void rt_threadStarted(QThread *) __attribute__((weak));
QStringList QCoreApplication::arguments() { return rt_arguments(); }
const QMetaObject *QCoreApplication::metaObject() const { return &staticMetaObject; }
void *QCoreApplication::qt_metacast(const char *n) { return !strcmp(n, "QCoreApplication") ? this : QObject::qt_metacast(n); }
int QCoreApplication::qt_metacall(QMetaObject::Call c, int i, void **a) { return QObject::qt_metacall(c, i, a); }
const QMetaObject QCoreApplication::staticMetaObject = { { &QObject::staticMetaObject, nullptr, md_none, nullptr, nullptr, nullptr } };
QStringList QProcess::systemEnvironment() { return rt_systemEnvironment(); }
QTextCodec *QTextCodec::codecForName(const QByteArray &) { return nullptr; }
void QTextCodec::setCodecForLocale(QTextCodec *) {}
bool QEventLoop::event(QEvent *) { return false; }
const QMetaObject *QEventLoop::metaObject() const { return &staticMetaObject; }
void *QEventLoop::qt_metacast(const char *n) { return QObject::qt_metacast(n); }
int QEventLoop::qt_metacall(QMetaObject::Call c, int i, void **a) { return QObject::qt_metacall(c, i, a); }
void QEventLoop::qt_static_metacall(QObject *o, QMetaObject::Call c, int i, void **) { if (c == QMetaObject::InvokeMetaMethod) ((QEventLoop *)o)->quit(); }
const QMetaObject QEventLoop::staticMetaObject = { { &QObject::staticMetaObject, nullptr, md_none, &QEventLoop::qt_static_metacall, nullptr, nullptr } };

// ---- threads, mutexes, semaphores: single-threaded unless a harness models them
QThread::QThread(QObject *p) : QObject(p) { m_objData(this)->ext = nullptr; }
QThread::~QThread() {}
bool QThread::event(QEvent *) { return false; }
int QThread::idealThreadCount() noexcept { return 4; }
bool QThread::isRunning() const { return m_objData(this)->ext != nullptr; }
const QMetaObject *QThread::metaObject() const { return &staticMetaObject; }
void *QThread::qt_metacast(const char *n) { return QObject::qt_metacast(n); }
int QThread::qt_metacall(QMetaObject::Call c, int i, void **a) { return QObject::qt_metacall(c, i, a); }
void QThread::qt_static_metacall(QObject *, QMetaObject::Call, int, void **) {}
const QMetaObject QThread::staticMetaObject = { { &QObject::staticMetaObject, nullptr, md_none, nullptr, nullptr, nullptr } };
void QThread::start(Priority) { m_objData(this)->ext = this; if (rt_threadStarted) rt_threadStarted(this); }
void QThread::quit() { m_objData(this)->ext = nullptr; }
bool QThread::wait(QDeadlineTimer) { return true; }
bool QThread::wait(unsigned long) { return true; }
void QThread::run() {}
bool rt_otherThread;         // set while the harness runs another thread's code from a hook
void rt_lockHook() __attribute__((weak));   // a point where another thread may run
void QMutex::lock() QT_MUTEX_LOCK_NOEXCEPT { if (rt_lockHook) rt_lockHook(); if (d_ptr.loadRelaxed()) { if (rt_otherThread) { sym_assume(0); sym_end(); } sym_fail("mutex locked twice by the same thread"); } d_ptr.storeRelaxed((QMutexData *)1); }
void QMutex::unlock() noexcept { if (!d_ptr.loadRelaxed()) sym_fail("unlock of a mutex that is not locked"); d_ptr.storeRelaxed(nullptr); if (rt_lockHook) rt_lockHook(); }
bool QMutex::tryLock(int) QT_MUTEX_LOCK_NOEXCEPT { if (d_ptr.loadRelaxed()) return false; d_ptr.storeRelaxed((QMutexData *)1); return true; }
QMutex::~QMutex() {}
void QElapsedTimer::start() noexcept {}
qint64 rt_elapsed() __attribute__((weak));
bool QElapsedTimer::isValid() const noexcept { return true; }
void QElapsedTimer::invalidate() noexcept {}
qint64 QElapsedTimer::restart() noexcept { return elapsed(); }
bool QElapsedTimer::hasExpired(qint64 t) const noexcept { return elapsed() > t; }
qint64 QElapsedTimer::elapsed() const noexcept { static qint64 t = 0; return rt_elapsed ? rt_elapsed() : ++t; }
// system semaphores: the environment (harness) decides when an acquisition succeeds
int rt_semAcquire(const QString &key) __attribute__((weak));
void rt_semRelease(const QString &key, int n) __attribute__((weak));
void rt_semCreate(const QString &key, int n, bool create) __attribute__((weak));
class QSystemSemaphorePrivate { public: QString key; };
QSystemSemaphore::QSystemSemaphore(const QString &key, int n, AccessMode m) : d(new QSystemSemaphorePrivate) { d->key = key; if (rt_semCreate) rt_semCreate(key, n, m == Create); }
QSystemSemaphore::~QSystemSemaphore() {}
bool QSystemSemaphore::acquire() { if (!rt_semAcquire) sym_internal_error("semaphore"); return rt_semAcquire(d->key); }
bool QSystemSemaphore::release(int k) { if (!rt_semRelease) sym_internal_error("semaphore"); rt_semRelease(d->key, k); return true; }
QSystemSemaphore::SystemSemaphoreError QSystemSemaphore::error() const { return NoError; }
QString QSystemSemaphore::errorString() const { return QString(); }
QString rt_appPath() __attribute__((weak));
QString QCoreApplication::applicationFilePath() { return rt_appPath ? rt_appPath() : QStringLiteral("/app/jom.exe"); }
qint64 QCoreApplication::applicationPid() { return 4711; }

// ---- messages
QDebug::~QDebug() {}
void QDebug::putString(const QChar *, size_t) {}
QDebug QMessageLogger::debug() const { return QDebug(QtDebugMsg); }
extern "C" void m_qfatal(const void *, const char *) __asm__("_ZNK14QMessageLogger5fatalEPKcz");
extern "C" void m_qfatal(const void *, const char *) { sym_fail("qFatal"); }
extern "C" void m_qwarning(const void *, const char *) __asm__("_ZNK14QMessageLogger7warningEPKcz");
extern "C" void m_qwarning(const void *, const char *) { ++rt_warnings; }
extern "C" void m_qew1(const char *) __asm__("_Z13qErrnoWarningPKcz");
extern "C" void m_qew1(const char *) { ++rt_warnings; }
extern "C" void m_qew2(int, const char *) __asm__("_Z13qErrnoWarningiPKcz");
extern "C" void m_qew2(int, const char *) { ++rt_warnings; }
