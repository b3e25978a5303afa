// Model of the QtCore file classes used by jom. Semantics follow Qt 5.15 (QIODevice text mode and buffering included).
#include <QtCore/QtCore>
#include "sym.h"
#include "rt.h"
#include "rt_int.h"
#include "qt_model.h"
#include "qt_obj.h"

// ---------------------------------------------------------------- paths
static bool needsClean(const QString &p)  // "//", "/./", "/../", trailing '/', "/." or "/.." at the end
{
    const QChar *c = p.constData(); int n = p.size(); int bad = 0;
    for (int i = 0; i + 1 < n; ++i) {
        int sl = (c[i] == u'/');
        bad |= sl & (c[i + 1] == u'/');
        int dot = sl & (c[i + 1] == u'.');
        if (i + 2 < n) { bad |= dot & (c[i + 2] == u'/'); int dd = dot & (c[i + 2] == u'.'); if (i + 3 < n) bad |= dd & (c[i + 3] == u'/'); else bad |= dd; }
        else bad |= dot;
    }
    if (n > 1) bad |= (c[n - 1] == u'/');
    if (n > 1) bad |= (c[0] == u'.') & (c[1] == u'/');
    return bad;
}
static QString cleanPath(const QString &p)
{
    if (!needsClean(p)) return p;
    QStringList parts, in = p.split(QLatin1Char('/'));
    bool abs = p.startsWith(QLatin1Char('/'));
    for (int i = 0; i < in.size(); ++i) {
        const QString &s = in.at(i);
        if (s.isEmpty() || s == QLatin1String(".")) continue;
        if (s == QLatin1String("..")) { if (!parts.isEmpty() && parts.last() != QLatin1String("..")) { parts.removeLast(); continue; } if (abs) continue; }
        parts.append(s);
    }
    QString r; for (int i = 0; i < parts.size(); ++i) { if (i) r += QLatin1Char('/'); r += parts.at(i); }
    if (abs) r.prepend(QLatin1Char('/'));
    if (r.isEmpty()) r = QLatin1String(".");
    return r;
}
static QString absPath(const QString &p)
{
    if (p.startsWith(QLatin1Char('/'))) return cleanPath(p);
    if (p.isEmpty()) return p;
    return cleanPath(rt_cwd() + QLatin1Char('/') + p);
}
static RtFile *lookup(const QString &name)
{
    if (name.isEmpty()) return nullptr;
    QString a = absPath(name);
    if (rt_eq(a, rt_cwd()) || rt_eq(a, QString(QLatin1String("/")))) { static RtFile *cwd = nullptr; if (!cwd) { cwd = new RtFile; cwd->exists = cwd->isDir = true; cwd->mtime = 1; } return cwd; }
    QByteArray rel = rt_relPath(a); RtFile *f = rt_find(rel);
    if (!f && rel == "tmp") { static RtFile *tmp = nullptr; if (!tmp) { tmp = new RtFile; tmp->exists = tmp->isDir = true; tmp->mtime = 1; } return tmp; }
    return f;
}

class QFileInfoPrivate : public QSharedData { public: QString path; };
QFileInfo::QFileInfo(const QString &f) : d_ptr(new QFileInfoPrivate) { d_ptr->path = f; }
QFileInfo::QFileInfo(const QFileInfo &o) : d_ptr(o.d_ptr) {}
QFileInfo::~QFileInfo() {}
void QFileInfo::setFile(const QString &f) { d_ptr->path = f; }
QString QFileInfo::absoluteFilePath() const { return absPath(d_ptr->path); }
QString QFileInfo::filePath() const { return d_ptr->path; }
QString QFileInfo::path() const { int i = d_ptr->path.lastIndexOf(QLatin1Char('/')); if (i < 0) return QLatin1String("."); if (i == 0) return QLatin1String("/"); return d_ptr->path.left(i); }
QString QFileInfo::absolutePath() const { if (d_ptr->path.isEmpty()) return QLatin1String(""); QString a = absPath(d_ptr->path); int i = a.lastIndexOf(QLatin1Char('/')); return i <= 0 ? QString(QLatin1String("/")) : a.left(i); }
QString QFileInfo::fileName() const { int i = d_ptr->path.lastIndexOf(QLatin1Char('/')); return i < 0 ? d_ptr->path : d_ptr->path.mid(i + 1); }
QString QFileInfo::baseName() const { QString f = fileName(); int i = f.indexOf(QLatin1Char('.')); return i < 0 ? f : f.left(i); }
QString QFileInfo::completeBaseName() const { QString f = fileName(); int i = f.lastIndexOf(QLatin1Char('.')); return i < 0 ? f : f.left(i); }
QString QFileInfo::suffix() const { QString f = fileName(); int i = f.lastIndexOf(QLatin1Char('.')); return i < 0 ? QString() : f.mid(i + 1); }
QString QFileInfo::completeSuffix() const { QString f = fileName(); int i = f.indexOf(QLatin1Char('.')); return i < 0 ? QString() : f.mid(i + 1); }
bool QFileInfo::exists() const { RtFile *f = lookup(d_ptr->path); return f && f->exists; }
bool QFileInfo::exists(const QString &p) { RtFile *f = lookup(p); return f && f->exists; }
bool QFileInfo::isDir() const { RtFile *f = lookup(d_ptr->path); return f && f->exists && f->isDir; }
bool QFileInfo::isFile() const { RtFile *f = lookup(d_ptr->path); return f && f->exists && !f->isDir; }
bool QFileInfo::isRelative() const { return !d_ptr->path.startsWith(QLatin1Char('/')); }
QFileInfo::QFileInfo() : d_ptr(new QFileInfoPrivate) {}
QFileInfo::QFileInfo(const QDir &d, const QString &f) : d_ptr(new QFileInfoPrivate) { d_ptr->path = d.filePath(f); }
QFileInfo &QFileInfo::operator=(const QFileInfo &o) { d_ptr = o.d_ptr; return *this; }
void QFileInfo::setFile(const QDir &d, const QString &f) { d_ptr->path = d.filePath(f); }
void QFileInfo::refresh() {}
void QFileInfo::setCaching(bool) {}
QDir QFileInfo::dir() const { return QDir(path()); }
QDir QFileInfo::absoluteDir() const { return QDir(absolutePath()); }

class QDirPrivate : public QSharedData { public: QString path; };
QDir::QDir(const QString &p) : d_ptr(new QDirPrivate) { d_ptr->path = p.isEmpty() ? QString(QLatin1String(".")) : p; }
QDir::QDir(const QDir &o) : d_ptr(o.d_ptr) {}
QDir::~QDir() {}
QString QDir::absoluteFilePath(const QString &f) const { if (f.startsWith(QLatin1Char('/'))) return f; QString d = absPath(d_ptr->path); if (f.isEmpty()) return d; if (!d.endsWith(QLatin1Char('/'))) d += QLatin1Char('/'); return d + f; }
QString QDir::filePath(const QString &f) const { if (f.startsWith(QLatin1Char('/'))) return f; QString d = d_ptr->path; if (d.isEmpty()) return f; if (!d.endsWith(QLatin1Char('/'))) d += QLatin1Char('/'); return d + f; }
QString rt_currentPath() __attribute__((weak));
QString QDir::currentPath() { return rt_currentPath ? rt_currentPath() : rt_cwd(); }
QChar QDir::separator() { return QLatin1Char('/'); }
QString QDir::toNativeSeparators(const QString &s) { return s; }
QString QDir::fromNativeSeparators(const QString &s) { return s; }
QString QDir::cleanPath(const QString &s) { return s.isEmpty() ? s : ::cleanPath(s); }
bool QDir::isRelativePath(const QString &p) { return !p.startsWith(QLatin1Char('/')); }
bool QDir::exists() const { RtFile *f = lookup(d_ptr->path); return f && f->exists && f->isDir; }
bool QDir::exists(const QString &n) const { return !n.isEmpty() && QFileInfo::exists(filePath(n)); }
QString QDir::path() const { return d_ptr->path; }
QString QDir::absolutePath() const { return absPath(d_ptr->path); }
void QDir::setPath(const QString &p) { d_ptr->path = p; }
QString QDir::dirName() const { int i = d_ptr->path.lastIndexOf(QLatin1Char('/')); return i < 0 ? d_ptr->path : d_ptr->path.mid(i + 1); }
bool QDir::isRelative() const { return isRelativePath(d_ptr->path); }
bool QDir::isRoot() const { return absPath(d_ptr->path) == QLatin1String("/"); }
QDir &QDir::operator=(const QDir &o) { d_ptr = o.d_ptr; return *this; }

class QDirIteratorPrivate { public: QStringList l; int i; QString path; };
static bool wildMatch(const QString &p, int i, const QString &s, int j)
{
    for (; i < p.size(); ++i, ++j) {
        if (p.at(i) == QLatin1Char('*')) { for (int k = j; k <= s.size(); ++k) if (wildMatch(p, i + 1, s, k)) return true; return false; }
        if (j >= s.size()) return false;
        if (p.at(i) != QLatin1Char('?') && m_lower(p.at(i).unicode()) != m_lower(s.at(j).unicode())) return false;
    }
    return j == s.size();
}
QDirIterator::QDirIterator(const QString &path, const QStringList &names, QDir::Filters flt, IteratorFlags) : d(new QDirIteratorPrivate)
{
    d->i = 0; d->path = path;
    QString base = absPath(path); if (!base.endsWith(QLatin1Char('/'))) base += QLatin1Char('/');
    QStringList all; QList<RtFile> &fl = rt_files();
    if (!(flt & QDir::NoDotAndDotDot)) { all.append(QLatin1String(".")); all.append(QLatin1String("..")); }
    if (base == rt_cwd() + QLatin1Char('/')) all.append(QLatin1String("tmp")); // the directory for temporary files
    for (int k = 0; k < fl.size(); ++k) {
        if (!fl.at(k).exists) continue;
        QString a = absPath(QString::fromLatin1(fl.at(k).path));
        if (!a.startsWith(base)) continue;
        QString nm = a.mid(base.size()); int sl = nm.indexOf(QLatin1Char('/')); if (sl >= 0) nm.truncate(sl);
        if (nm.isEmpty() || nm.startsWith(QLatin1Char('.')) || all.contains(nm)) continue; // hidden files are left out
        all.append(nm);
    }
    for (int k = 0; k < all.size(); ++k) {
        const QString &nm = all.at(k); bool ok = names.isEmpty();
        for (int q = 0; q < names.size() && !ok; ++q) ok = wildMatch(names.at(q), 0, nm, 0);
        if (!ok) continue;
        QString r = path; if (!r.isEmpty() && !r.endsWith(QLatin1Char('/'))) r += QLatin1Char('/');
        d->l.append(r + nm);
    }
    d->l.sort();
}
QDirIterator::~QDirIterator() {}
bool QDirIterator::hasNext() const { return d->i < d->l.size(); }
QString QDirIterator::next() { return d->l.at(d->i++); }
QDirIterator::QDirIterator(const QString &path, QDir::Filters f, IteratorFlags fl) : QDirIterator(path, QStringList(), f, fl) {}
QDirIterator::QDirIterator(const QString &path, IteratorFlags fl) : QDirIterator(path, QStringList(), QDir::NoFilter, fl) {}
QString QDirIterator::filePath() const { return d->i ? d->l.at(d->i - 1) : QString(); }
QString QDirIterator::fileName() const { return QFileInfo(filePath()).fileName(); }
QFileInfo QDirIterator::fileInfo() const { return QFileInfo(filePath()); }
QString QDirIterator::path() const { return d->path; }

// ---------------------------------------------------------------- devices
struct Dev {
    QString name; QByteArray *data; QByteArray own; int pos, bufEnd; int mode; bool open;
};
static Dev *dev(const QIODevice *d) { return (Dev *)m_objData((const QObject *)d)->ext; }
enum { BUFSZ = 16384 };
QIODevice::QIODevice() : QObject(nullptr) { Dev *v = new Dev; v->pos = v->bufEnd = 0; v->mode = 0; v->open = false; v->data = &v->own; m_objData(this)->ext = v; }
QIODevice::QIODevice(QObject *p) : QObject(p) { Dev *v = new Dev; v->pos = v->bufEnd = 0; v->mode = 0; v->open = false; v->data = &v->own; m_objData(this)->ext = v; }
QIODevice::~QIODevice() { delete dev(this); m_objData(this)->ext = nullptr; }
QFileDevice::QFileDevice() : QIODevice() {}
QFileDevice::~QFileDevice() {}
QFile::QFile(const QString &n) : QFileDevice() { dev(this)->name = n; }
QFile::QFile() : QFileDevice() {}
QFile::~QFile() {}
bool QFile::exists(const QString &p) { RtFile *f = lookup(p); return f && f->exists; }
bool QFile::exists() const { return QFile::exists(dev(this)->name); }
QString QFile::fileName() const { return dev(this)->name; }
QString QFileDevice::fileName() const { return dev(this)->name; }
void QFile::setFileName(const QString &n) { dev(this)->name = n; }
bool QFile::open(OpenMode m)
{
    Dev *v = dev(this);
    if (v->open) return false;
    RtFile *f = lookup(v->name);
    if (f && f->exists && f->isDir) return false;
    if (m & QIODevice::WriteOnly) {
        if (m & (QIODevice::ReadOnly | QIODevice::Append)) sym_internal_error("QFile open mode");
        QByteArray rel = rt_relPath(absPath(v->name));
        int sl = rel.lastIndexOf('/');
        if (rel.isEmpty()) return false;
        if (sl > 0 && !(sl == 3 && rel.startsWith("tmp"))) { RtFile *dd = rt_find(rel.left(sl)); if (!dd || !dd->isDir || !dd->exists) return false; }
        rt_touch(rel, true, 1); f = rt_find(rel); f->content.clear();
        v->own = QByteArray();
    } else {
        if (!f || !f->exists) return false;
        v->own = f->content;
    }
    v->mode = (int)m; v->open = true; v->pos = v->bufEnd = 0; return true;
}
void QIODevice::close() { Dev *v = dev(this); v->open = false; v->pos = v->bufEnd = 0; v->mode = 0; }
void QFileDevice::close() {
    Dev *v = dev(this);
    if (v->open && (v->mode & QIODevice::WriteOnly)) { RtFile *f = lookup(v->name); if (f) f->content = v->own; }
    QIODevice::close();
}
bool QFile::remove() { close(); RtFile *f = lookup(dev(this)->name); if (!f || !f->exists) return false; f->exists = false; return true; }
bool QFile::remove(const QString &n) { RtFile *f = lookup(n); if (!f || !f->exists) return false; f->exists = false; return true; }
bool QFileDevice::atEnd() const { Dev *v = dev(this); return v->pos >= v->own.size(); }
bool QIODevice::isOpen() const { return dev(this)->open; }
bool QIODevice::isTextModeEnabled() const { return dev(this)->mode & Text; }
static void fill(Dev *v) { if (v->pos >= v->bufEnd) v->bufEnd = qMin(v->own.size(), v->pos + BUFSZ); }
QByteArray QIODevice::peek(qint64 n)
{
    Dev *v = dev(this); QByteArray r; if (!v->open) return r;
    fill(v);
    int p = v->pos;
    while (r.size() < n && p < v->own.size()) { char c = v->own.at(p++); if ((v->mode & Text) && c == '\r') continue; r.append(c); }
    return r;
}
static int getCh(Dev *v) // QIODevice::getChar in text mode drops every CR
{
    for (;;) {
        if (v->pos >= v->own.size()) return -1;
        fill(v);
        char c = v->own.constData()[v->pos++];
        if ((v->mode & QIODevice::Text) && c == '\r') continue;
        return (uchar)c;
    }
}
qint64 QIODevice::readLine(char *out, qint64 maxSize)
{
    Dev *v = dev(this);
    if (maxSize < 2 || !v->open) return -1;
    --maxSize;
    qint64 n = 0; const bool text = v->mode & Text;
    const char *src = v->own.constData();
    while (v->pos < v->bufEnd && n < maxSize) { char c = src[v->pos++]; out[n++] = c; if (c == '\n') break; }
    if (n && out[n - 1] == '\n') {
        if (text && n > 1 && out[n - 2] == '\r') { --n; out[n - 1] = '\n'; }
        out[n] = 0; return n;
    }
    qint64 rd = 0; int last = 1;
    while (n + rd < maxSize) { int c = getCh(v); if (c < 0) { last = 0; break; } last = 1; out[n + rd] = (char)c; ++rd; if (c == '\n') break; }
    if (n + rd >= maxSize && rd == 0) last = 0;
    if (last != 1 && rd == 0) { out[n] = 0; return n ? n : -1; }
    n += rd; out[n] = 0;
    if (text && n > 1 && out[n - 1] == '\n' && out[n - 2] == '\r') { out[n - 2] = '\n'; out[n - 1] = 0; --n; }
    return n;
}
QByteArray QIODevice::readLine(qint64 maxSize)
{
    QByteArray r; qint64 got = 0;
    if (maxSize) { r.resize((int)maxSize); got = readLine(r.data(), maxSize); }
    else {
        r.resize(1); qint64 rr;
        do { r.resize(r.size() + BUFSZ); rr = readLine(r.data() + got, r.size() - got); if (rr > 0 || got == 0) got += rr; } while (rr == BUFSZ && r.at((int)got - 1) != '\n');
    }
    if (got <= 0) r.clear(); else r.resize((int)got);
    return r;
}
QByteArray QIODevice::readAll() { Dev *v = dev(this); QByteArray r; for (int c; (c = getCh(v)) >= 0;) r.append((char)c); return r; }
qint64 QIODevice::write(const char *p, qint64 n) { Dev *v = dev(this); if (!v->open) return -1; if (v->mode & Text) sym_internal_error("text mode write"); v->own.append(p, (int)n); return n; }
qint64 QIODevice::write(const char *p) { return write(p, (qint64)strlen(p)); }
// remaining virtual functions: not used by jom
#define NI(x) { sym_internal_error("QIODevice::" x); }
bool QIODevice::isSequential() const { return false; }
bool QIODevice::open(OpenMode) NI("open")
qint64 QIODevice::pos() const { return dev(this)->pos; }
qint64 QIODevice::size() const { return dev(this)->own.size(); }
bool QIODevice::seek(qint64 p) { dev(this)->pos = (int)p; dev(this)->bufEnd = 0; return true; }
bool QIODevice::atEnd() const { Dev *v = dev(this); return v->pos >= v->own.size(); }
bool QIODevice::reset() { return seek(0); }
qint64 QIODevice::bytesAvailable() const { return dev(this)->own.size() - dev(this)->pos; }
qint64 QIODevice::bytesToWrite() const { return 0; }
bool QIODevice::canReadLine() const NI("canReadLine")
bool QIODevice::waitForReadyRead(int) NI("waitForReadyRead")
bool QIODevice::waitForBytesWritten(int) NI("waitForBytesWritten")
qint64 QIODevice::readLineData(char *, qint64) NI("readLineData")
bool QFileDevice::isSequential() const { return false; }
qint64 QFileDevice::pos() const { return dev(this)->pos; }
bool QFileDevice::seek(qint64 p) { return QIODevice::seek(p); }
qint64 QFileDevice::size() const { return dev(this)->own.size(); }
bool QFileDevice::resize(qint64) NI("resize")
QFileDevice::Permissions QFileDevice::permissions() const NI("permissions")
bool QFileDevice::setPermissions(Permissions) NI("setPermissions")
qint64 QFileDevice::readData(char *, qint64) NI("readData")
qint64 QFileDevice::writeData(const char *, qint64) NI("writeData")
qint64 QFileDevice::readLineData(char *, qint64) NI("readLineData")
qint64 QFile::size() const { return dev(this)->own.size(); }
bool QFile::resize(qint64) NI("resize")
QFileDevice::Permissions QFile::permissions() const NI("permissions")
bool QFile::setPermissions(Permissions) NI("setPermissions")
#define MO(C, B) const QMetaObject *C::metaObject() const { return &staticMetaObject; } void *C::qt_metacast(const char *n) { return B::qt_metacast(n); } int C::qt_metacall(QMetaObject::Call c, int i, void **a) { return B::qt_metacall(c, i, a); } \
    void C::qt_static_metacall(QObject *, QMetaObject::Call, int, void **) {} static const uint md_##C[] = { 8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 }; const QMetaObject C::staticMetaObject = { { &B::staticMetaObject, nullptr, md_##C, nullptr, nullptr, nullptr } };
MO(QIODevice, QObject)
MO(QFileDevice, QIODevice)
MO(QFile, QFileDevice)

// ---------------------------------------------------------------- QTextStream (reading only)
class QTextStreamPrivate { public: QIODevice *d; int codec; bool started; QString buf; int off; bool be; QByteArray rest; };
QTextStream::QTextStream() : d_ptr(new QTextStreamPrivate) { d_ptr->d = nullptr; d_ptr->codec = 0; d_ptr->started = false; d_ptr->off = 0; d_ptr->be = false; }
QTextStream::~QTextStream() {}
void QTextStream::setCodec(const char *n) { d_ptr->codec = !strcmp(n, "UTF-8") ? 8 : !strcmp(n, "UTF-16") ? 16 : 0; if (!d_ptr->codec) sym_internal_error("codec"); }
void QTextStream::setAutoDetectUnicode(bool b) { if (b) sym_internal_error("autodetect"); }
void QTextStream::setDevice(QIODevice *d) { d_ptr->d = d; }
QTextStream &QTextStream::operator<<(char) { sym_internal_error("QTextStream <<"); }
static void tsFill(QTextStreamPrivate *p)
{
    Dev *v = dev(p->d); const bool text = v->mode & QIODevice::Text;
    int n = qMin(16384, v->own.size() - v->pos);
    if (n <= 0) return;
    QByteArray raw = p->rest + v->own.mid(v->pos, n); v->pos += n; v->bufEnd = v->pos; p->rest.clear();
    const uchar *b = (const uchar *)raw.constData(); n = raw.size(); int i = 0;
    if (p->codec == 8) {
        if (!p->started && n >= 3 && b[0] == 0xef && b[1] == 0xbb && b[2] == 0xbf) i = 3;
        while (i < n) {
            uint c = b[i];
            if (c < 0x80) { ++i; if (text && c == '\r') continue; p->buf += QChar((ushort)c); continue; }
            int len = (c >= 0xc2 && c < 0xe0) ? 2 : (c >= 0xe0 && c < 0xf0) ? 3 : 0;
            if (!len) { ++i; p->buf += QChar(0xfffd); continue; }
            if (i + len > n) { if (v->pos < v->own.size()) { p->rest = raw.mid(i); break; } sym_internal_error("truncated UTF-8"); }
            for (int k = 1; k < len; ++k) if ((b[i + k] & 0xc0) != 0x80) sym_internal_error("invalid UTF-8");
            uint u = len == 2 ? ((c & 31) << 6) | (b[i + 1] & 63) : ((c & 15) << 12) | ((uint)(b[i + 1] & 63) << 6) | (b[i + 2] & 63);
            if (len == 3 && (u < 0x800 || (u >= 0xd800 && u < 0xe000))) sym_internal_error("invalid UTF-8");
            p->buf += QChar((ushort)u); i += len;
        }
    } else if (p->codec == 16) {
        if (!p->started && n >= 2) { if (b[0] == 0xff && b[1] == 0xfe) i = 2; else if (b[0] == 0xfe && b[1] == 0xff) { p->be = true; i = 2; } }
        for (; i + 1 < n; i += 2) { uint u = p->be ? ((uint)b[i] << 8) | b[i + 1] : b[i] | ((uint)b[i + 1] << 8); if (text && u == '\r') continue; p->buf += QChar((ushort)u); }
        if (i < n) p->rest = raw.mid(i);
    } else sym_internal_error("no codec");
    p->started = true;
}
QString QTextStream::readLine(qint64)
{
    QTextStreamPrivate *p = d_ptr.data();
    if (!p->d) return QString();
    Dev *v = dev(p->d); int at = p->off;
    for (;;) {
        if (at >= p->buf.size()) { if (v->pos >= v->own.size()) break; tsFill(p); if (at >= p->buf.size()) continue; }
        if (p->buf.at(at) == QLatin1Char('\n')) {
            int e = at; if (e > p->off && p->buf.at(e - 1) == QLatin1Char('\r')) --e;
            QString r = e > p->off ? p->buf.mid(p->off, e - p->off) : QString(QLatin1String("")); p->off = at + 1; return r;
        }
        ++at;
    }
    if (p->off >= p->buf.size()) return QString();
    int e = p->buf.size(); if (p->buf.at(e - 1) == QLatin1Char('\r')) --e;
    QString r = e > p->off ? p->buf.mid(p->off, e - p->off) : QString(QLatin1String("")); p->off = p->buf.size(); return r;
}
bool QTextStream::atEnd() const { const QTextStreamPrivate *p = d_ptr.data(); if (p->off < p->buf.size()) return false; return !p->d || dev(p->d)->pos >= dev(p->d)->own.size(); }
