// Model of the QtCore string classes, second part: functions jom does not call at the pinned commit (or calls rarely) but an edit of
// jom plausibly would. Each is written in terms of the primitives of qt_core.cpp.
#include <QtCore/QtCore>
#include <stdlib.h>
#include <string.h>
#include "sym.h"
#include "qt_model.h"
typedef Qt::CaseSensitivity CS;
static inline const ushort *U(const QString &s) { return reinterpret_cast<const ushort *>(s.constData()); }
static inline ushort foldc(ushort c, CS cs) { return cs == Qt::CaseSensitive ? c : (ushort)m_lower(c); }
static bool eqN(const ushort *a, const ushort *b, int n, CS cs) { unsigned r = 0; for (int i = 0; i < n; ++i) r |= foldc(a[i], cs) ^ foldc(b[i], cs); return r == 0; }
static inline const ushort *V(QStringView v) { return reinterpret_cast<const ushort *>(v.utf16()); }
static QString S(QStringView v) { return v.isNull() ? QString() : QString(v.data(), (int)v.size()); }
static QString S(QLatin1String v) { return QString(v); }
static QStringView W(const QString &s) { return QStringView(s); }

bool QtPrivate::startsWith(QStringView h, QStringView n, CS cs) noexcept { if (h.isNull()) return n.isNull(); return n.size() <= h.size() && eqN(V(h), V(n), (int)n.size(), cs); }
bool QtPrivate::startsWith(QStringView h, QLatin1String n, CS cs) noexcept { QString t(n); if (h.isNull()) return n.isNull(); return startsWith(h, W(t), cs); }
bool QtPrivate::startsWith(QLatin1String h, QStringView n, CS cs) noexcept { QString t(h); return startsWith(W(t), n, cs); }
bool QtPrivate::startsWith(QLatin1String h, QLatin1String n, CS cs) noexcept { QString t(h), u(n); return startsWith(W(t), W(u), cs); }
bool QtPrivate::endsWith(QStringView h, QStringView n, CS cs) noexcept { if (h.isNull()) return n.isNull(); return n.size() <= h.size() && eqN(V(h) + h.size() - n.size(), V(n), (int)n.size(), cs); }
bool QtPrivate::endsWith(QStringView h, QLatin1String n, CS cs) noexcept { QString t(n); if (h.isNull()) return n.isNull(); return endsWith(h, W(t), cs); }
bool QtPrivate::endsWith(QLatin1String h, QStringView n, CS cs) noexcept { QString t(h); return endsWith(W(t), n, cs); }
bool QtPrivate::endsWith(QLatin1String h, QLatin1String n, CS cs) noexcept { QString t(h), u(n); return endsWith(W(t), W(u), cs); }
qsizetype QtPrivate::findString(QStringView h, qsizetype from, QStringView n, CS cs) noexcept {
    qsizetype l = h.size(), m = n.size(); if (from < 0) from += l;
    if (size_t(m + from) > size_t(l)) return -1;
    if (!m) return from;
    if (!l) return -1;
    for (qsizetype i = from; i + m <= l; ++i) if (eqN(V(h) + i, V(n), (int)m, cs)) return i;
    return -1;
}
qsizetype QtPrivate::findString(QStringView h, qsizetype f, QLatin1String n, CS cs) noexcept { QString t(n); return findString(h, f, W(t), cs); }
qsizetype QtPrivate::findString(QLatin1String h, qsizetype f, QStringView n, CS cs) noexcept { QString t(h); return findString(W(t), f, n, cs); }
qsizetype QtPrivate::findString(QLatin1String h, qsizetype f, QLatin1String n, CS cs) noexcept { QString t(h), u(n); return findString(W(t), f, W(u), cs); }
qsizetype QtPrivate::lastIndexOf(QStringView h, qsizetype from, QStringView n, CS cs) noexcept {
    qsizetype l = h.size(), m = n.size(); if (from < 0) from += l;
    if (m == 0 && from == l) return from;
    if (size_t(from) >= size_t(l)) return -1;
    if (from > l - m) from = l - m;
    for (qsizetype i = from; i >= 0; --i) if (eqN(V(h) + i, V(n), (int)m, cs)) return i;
    return -1;
}
qsizetype QtPrivate::lastIndexOf(QStringView h, qsizetype f, QLatin1String n, CS cs) noexcept { QString t(n); return lastIndexOf(h, f, W(t), cs); }
qsizetype QtPrivate::lastIndexOf(QLatin1String h, qsizetype f, QStringView n, CS cs) noexcept { QString t(h); return lastIndexOf(W(t), f, n, cs); }
qsizetype QtPrivate::lastIndexOf(QLatin1String h, qsizetype f, QLatin1String n, CS cs) noexcept { QString t(h), u(n); return lastIndexOf(W(t), f, W(u), cs); }
int QtPrivate::compareStrings(QStringView a, QLatin1String b, CS cs) noexcept { QString t(b); return compareStrings(a, W(t), cs); }
int QtPrivate::compareStrings(QLatin1String a, QStringView b, CS cs) noexcept { QString t(a); return compareStrings(W(t), b, cs); }
int QtPrivate::compareStrings(QLatin1String a, QLatin1String b, CS cs) noexcept { QString t(a), u(b); return compareStrings(W(t), W(u), cs); }
QStringView QtPrivate::trimmed(QStringView s) noexcept { const ushort *p = V(s); qsizetype b = 0, e = s.size(); while (b < e && m_space(p[e - 1])) --e; while (b < e && m_space(p[b])) ++b; return QStringView(s.data() + b, e - b); }
QByteArray QtPrivate::convertToLatin1(QStringView s) { QByteArray r; r.resize((int)s.size()); for (int i = 0; i < r.size(); ++i) r.data()[i] = (char)V(s)[i]; return r; }
QByteArray QtPrivate::convertToLocal8Bit(QStringView s) { return S(s).toLocal8Bit(); }
bool QtPrivate::isAscii(QStringView s) noexcept { unsigned r = 0; for (qsizetype i = 0; i < s.size(); ++i) r |= V(s)[i]; return r < 128; }
bool QtPrivate::isLatin1(QStringView s) noexcept { unsigned r = 0; for (qsizetype i = 0; i < s.size(); ++i) r |= V(s)[i]; return r < 256; }
bool QtPrivate::isAscii(QLatin1String s) noexcept { unsigned r = 0; for (int i = 0; i < s.size(); ++i) r |= (uchar)s.data()[i]; return r < 128; }
qsizetype QtPrivate::qustrlen(const ushort *p) noexcept { qsizetype n = 0; while (p[n]) ++n; return n; }
const ushort *QtPrivate::qustrchr(QStringView s, ushort c) noexcept { const ushort *p = V(s); qsizetype i = 0; while (i < s.size() && p[i] != c) ++i; return p + i; }
QString QtPrivate::argToQString(QLatin1String p, size_t n, const ArgBase **a) { QString t(p); return argToQString(W(t), n, a); }

QStringList QtPrivate::QStringList_filter(const QStringList *l, QStringView s, CS cs) { return QStringList_filter(l, S(s), cs); }
QStringList QtPrivate::QStringList_filter(const QStringList *l, const QRegExp &rx) { QStringList r; for (int i = 0; i < l->size(); ++i) if (rx.indexIn(l->at(i)) != -1) r.append(l->at(i)); return r; }
QString QtPrivate::QStringList_join(const QStringList *l, QStringView sep) { return QStringList_join(l, sep.data(), (int)sep.size()); }
void QtPrivate::QStringList_replaceInStrings(QStringList *l, const QString &b, const QString &a, CS cs) { for (int i = 0; i < l->size(); ++i) (*l)[i].replace(b, a, cs); }
void QtPrivate::QStringList_replaceInStrings(QStringList *l, QStringView b, QStringView a, CS cs) { QStringList_replaceInStrings(l, S(b), S(a), cs); }
int QtPrivate::QStringList_indexOf(const QStringList *l, const QRegExp &rx, int from) { if (from < 0) from = qMax(from + l->size(), 0); for (int i = from; i < l->size(); ++i) if (rx.exactMatch(l->at(i))) return i; return -1; }

// ---------------------------------------------------------------- QString
QByteArray QString::toLatin1_helper_inplace(QString &s) { return toLatin1_helper(s); }
QString QString::simplified_helper(QString &s) { return simplified_helper(const_cast<const QString &>(s)); }
QString &QString::append(const QStringRef &r) { return append(r.toString()); }
int QString::indexOf(const QStringRef &s, int from, CS cs) const { return indexOf(s.toString(), from, cs); }
int QString::lastIndexOf(const QStringRef &s, int from, CS cs) const { return lastIndexOf(s.toString(), from, cs); }
int QString::lastIndexOf(const QRegExp &rx, int from) const { return rx.lastIndexIn(*this, from); }
int QString::lastIndexOf(QRegExp &rx, int from) const { return rx.lastIndexIn(*this, from); }
int QString::indexOf(QRegExp &rx, int from) const { return rx.indexIn(*this, from); }
QString &QString::remove(const QString &s, CS cs) { if (s.size()) { QString t = s; int i = 0; while ((i = indexOf(t, i, cs)) != -1) remove(i, t.size()); } return *this; }
QString &QString::remove(QLatin1String s, CS cs) { return remove(QString(s), cs); }
int QString::count(const QString &s, CS cs) const { int n = 0, i = -1; while ((i = indexOf(s, i + 1, cs)) != -1) ++n; return n; }
int QString::count(const QStringRef &s, CS cs) const { return count(s.toString(), cs); }
QString &QString::replace(int pos, int len, const QChar *p, int n) { return replace(pos, len, QString(p, n)); }
QString &QString::replace(int pos, int len, QChar c) { return replace(pos, len, QString(c)); }
QString &QString::replace(const QChar *b, int bn, const QChar *a, int an, CS cs) { return replace(QString(b, bn), QString(a, an), cs); }
QString &QString::fill(QChar c, int n) { resize(n < 0 ? size() : n); for (int i = 0; i < size(); ++i) data()[i] = c; return *this; }
QString QString::repeated(int n) const { QString r; for (int i = 0; i < n; ++i) r.append(*this); return r; }
QString QString::leftJustified(int w, QChar f, bool t) const { QString r = *this; if (r.size() > w) { if (t) r.truncate(w); } while (r.size() < w) r.append(f); return r; }
QString QString::rightJustified(int w, QChar f, bool t) const { QString r; while (r.size() + size() < w) r.append(f); if (size() > w && t) return left(w); r.append(*this); return r; }
bool QString::startsWith(const QStringRef &s, CS cs) const { return startsWith(s.toString(), cs); }
bool QString::endsWith(const QStringRef &s, CS cs) const { return endsWith(s.toString(), cs); }
bool QString::isLower() const { if (isEmpty()) return false; for (int i = 0; i < size(); ++i) if (!(at(i).unicode() >= 'a' && at(i).unicode() <= 'z')) return false; return true; }
QString QString::fromRawData(const QChar *p, int n) { return QString(p, n); }
QString QString::arg(QStringView a, int fw, QChar f) const { return arg(S(a), fw, f); }
QString QString::arg(char a, int fw, QChar f) const { return arg(QString(QLatin1Char(a)), fw, f); }
QString QString::multiArg(int n, const QString **a) const {
    const QtPrivate::ArgBase *b[10]; QtPrivate::QStringViewArg v[10];
    for (int i = 0; i < n; ++i) { v[i].string = W(*a[i]); b[i] = &v[i]; }
    return QtPrivate::argToQString(W(*this), n, b);
}
short QString::toShort(bool *ok, int base) const { bool o; int v = toInt(&o, base); if (v < -32768 || v > 32767) { o = false; v = 0; } if (!o) v = 0; if (ok) *ok = o; return (short)v; }
ushort QString::toUShort(bool *ok, int base) const { bool o; uint v = toUInt(&o, base); if (v > 65535) { o = false; v = 0; } if (ok) *ok = o; return (ushort)v; }
QString &QString::setNum(qlonglong n, int base) { return *this = number(n, base); }
QString &QString::setNum(qulonglong n, int base) { return *this = number(n, base); }
QString &QString::setUnicode(const QChar *p, int n) { return *this = QString(p, n); }
int QString::compare_helper(const QChar *a, int n, QLatin1String b, CS cs) noexcept { QString t(b); return compare_helper(a, n, t.constData(), t.size(), cs); }
int QString::compare_helper(const QChar *a, int n, const char *b, int m, CS cs) { QString t = fromUtf8(b, m); return compare_helper(a, n, t.constData(), t.size(), cs); }
bool QString::operator<(QLatin1String o) const noexcept { return compare(o) < 0; }
bool QString::operator>(QLatin1String o) const noexcept { return compare(o) > 0; }
int QString::localeAwareCompare(const QString &o) const { return compare(o); }
QString QString::section(const QString &sep, int start, int end, SectionFlags flags) const {
    if (flags != SectionDefault) sym_internal_error("QString::section flags");
    const QStringList l = split(sep); int n = l.size(); if (start < 0) start += n; if (end < 0) end += n;
    QString r; bool first = true; if (start >= n || end < 0 || start > end) return r;
    for (int i = qMax(start, 0); i <= end && i < n; ++i) { if (!first) r.append(sep); first = false; r.append(l.at(i)); }
    return r;
}
static QStringList splitStr(const QString &s, const QString &sep, bool skip, CS cs) {
    QStringList l; int st = 0, e, ex = 0;
    while ((e = s.indexOf(sep, st + ex, cs)) != -1) { if (st != e || !skip) l.append(s.mid(st, e - st)); st = e + sep.size(); ex = sep.size() == 0 ? 1 : 0; }
    if (st != s.size() || !skip) l.append(s.mid(st)); return l;
}
QStringList QString::split(const QString &sep, SplitBehavior b, CS cs) const { return splitStr(*this, sep, b == SkipEmptyParts, cs); }
QStringList QString::split(const QString &sep, Qt::SplitBehavior b, CS cs) const { return splitStr(*this, sep, b & Qt::SkipEmptyParts, cs); }
static QVector<QStringRef> splitRefCh(const QString &s, QChar sep, bool skip) {
    QVector<QStringRef> l; int st = 0, e; const QString *p = &s;
    while ((e = s.indexOf(sep, st)) != -1) { if (st != e || !skip) l.append(QStringRef(p, st, e - st)); st = e + 1; }
    if (st != s.size() || !skip) l.append(QStringRef(p, st, s.size() - st)); return l;
}
QVector<QStringRef> QString::splitRef(QChar sep, SplitBehavior b, CS) const { return splitRefCh(*this, sep, b == SkipEmptyParts); }
QVector<QStringRef> QString::splitRef(QChar sep, Qt::SplitBehavior b, CS) const { return splitRefCh(*this, sep, b & Qt::SkipEmptyParts); }

// ---------------------------------------------------------------- QStringRef
static QStringView RV(const QStringRef &r) { return QStringView(r.unicode(), r.size()); }
QStringRef QStringRef::left(int n) const { if (uint(n) >= uint(m_size)) return *this; return QStringRef(m_string, m_position, n); }
QStringRef QStringRef::right(int n) const { if (uint(n) >= uint(m_size)) return *this; return QStringRef(m_string, m_position + m_size - n, n); }
QStringRef QStringRef::mid(int pos, int n) const {
    using namespace QtPrivate;
    switch (QContainerImplHelper::mid(m_size, &pos, &n)) {
    case QContainerImplHelper::Null: return QStringRef();
    case QContainerImplHelper::Empty: return QStringRef(m_string, 0, 0);
    case QContainerImplHelper::Full: return *this;
    case QContainerImplHelper::Subset: return QStringRef(m_string, pos + m_position, n);
    }
    return QStringRef();
}
int QStringRef::indexOf(QChar c, int f, CS cs) const { return toString().indexOf(c, f, cs); }
int QStringRef::indexOf(const QString &s, int f, CS cs) const { return toString().indexOf(s, f, cs); }
int QStringRef::indexOf(QLatin1String s, int f, CS cs) const { return toString().indexOf(s, f, cs); }
int QStringRef::indexOf(const QStringRef &s, int f, CS cs) const { return toString().indexOf(s.toString(), f, cs); }
int QStringRef::lastIndexOf(QChar c, int f, CS cs) const { return toString().lastIndexOf(c, f, cs); }
int QStringRef::lastIndexOf(const QString &s, int f, CS cs) const { return toString().lastIndexOf(s, f, cs); }
int QStringRef::lastIndexOf(QLatin1String s, int f, CS cs) const { return toString().lastIndexOf(s, f, cs); }
int QStringRef::lastIndexOf(const QStringRef &s, int f, CS cs) const { return toString().lastIndexOf(s.toString(), f, cs); }
int QStringRef::count(QChar c, CS cs) const { return toString().count(c, cs); }
int QStringRef::count(const QString &s, CS cs) const { return toString().count(s, cs); }
int QStringRef::count(const QStringRef &s, CS cs) const { return toString().count(s.toString(), cs); }
bool QStringRef::startsWith(QChar c, CS cs) const { return m_size && foldc(unicode()->unicode(), cs) == foldc(c.unicode(), cs); }
bool QStringRef::startsWith(const QString &s, CS cs) const { return QtPrivate::startsWith(RV(*this), W(s), cs); }
bool QStringRef::startsWith(QLatin1String s, CS cs) const { return QtPrivate::startsWith(RV(*this), s, cs); }
bool QStringRef::startsWith(const QStringRef &s, CS cs) const { return QtPrivate::startsWith(RV(*this), RV(s), cs); }
bool QStringRef::endsWith(QChar c, CS cs) const { return m_size && foldc(unicode()[m_size - 1].unicode(), cs) == foldc(c.unicode(), cs); }
bool QStringRef::endsWith(const QString &s, CS cs) const { return QtPrivate::endsWith(RV(*this), W(s), cs); }
bool QStringRef::endsWith(QLatin1String s, CS cs) const { return QtPrivate::endsWith(RV(*this), s, cs); }
bool QStringRef::endsWith(const QStringRef &s, CS cs) const { return QtPrivate::endsWith(RV(*this), RV(s), cs); }
QStringRef QStringRef::trimmed() const { int b = 0, e = m_size; const QChar *p = unicode(); while (b < e && m_space(p[e - 1].unicode())) --e; while (b < e && m_space(p[b].unicode())) ++b; return QStringRef(m_string, m_position + b, e - b); }
int QStringRef::toInt(bool *ok, int b) const { return toString().toInt(ok, b); }
uint QStringRef::toUInt(bool *ok, int b) const { return toString().toUInt(ok, b); }
long QStringRef::toLong(bool *ok, int b) const { return toString().toLong(ok, b); }
ulong QStringRef::toULong(bool *ok, int b) const { return toString().toULong(ok, b); }
qlonglong QStringRef::toLongLong(bool *ok, int b) const { return toString().toLongLong(ok, b); }
qulonglong QStringRef::toULongLong(bool *ok, int b) const { return toString().toULongLong(ok, b); }
QByteArray QStringRef::toLatin1() const { return toString().toLatin1(); }
QByteArray QStringRef::toLocal8Bit() const { return toString().toLocal8Bit(); }
QByteArray QStringRef::toUtf8() const { return toString().toUtf8(); }
QStringRef QStringRef::appendTo(QString *s) const { int pos = s->size(); s->append(toString()); return QStringRef(s, pos, m_size); }
bool operator==(const QStringRef &a, const QStringRef &b) noexcept { return a.size() == b.size() && eqN((const ushort *)a.unicode(), (const ushort *)b.unicode(), a.size(), Qt::CaseSensitive); }
bool operator==(const QString &a, const QStringRef &b) noexcept { return a.size() == b.size() && eqN(U(a), (const ushort *)b.unicode(), a.size(), Qt::CaseSensitive); }
bool operator==(QLatin1String a, const QStringRef &b) noexcept { QString t(a); return t == b; }
bool operator<(const QStringRef &a, const QStringRef &b) noexcept { return QtPrivate::compareStrings(RV(a), RV(b)) < 0; }

// ---------------------------------------------------------------- QByteArray
int QByteArray::indexOf(const char *s, int from) const {
    int n = size(), m = (int)strlen(s); if (from < 0) from = qMax(from + n, 0);
    if (m + from > n) return -1;
    for (int i = from; i + m <= n; ++i) if (memcmp(constData() + i, s, m) == 0) return i;
    return -1;
}
int QByteArray::indexOf(const QByteArray &s, int from) const { int n = size(), m = s.size(); if (from < 0) from = qMax(from + n, 0); if (m + from > n) return -1; for (int i = from; i + m <= n; ++i) if (memcmp(constData() + i, s.constData(), m) == 0) return i; return -1; }
int QByteArray::lastIndexOf(const QByteArray &s, int from) const { int n = size(), m = s.size(), d = n - m; if (from < 0) from += n; if (from < 0 || from > n) return -1; if (from > d) from = d; for (int i = from; i >= 0; --i) if (memcmp(constData() + i, s.constData(), m) == 0) return i; return -1; }
int QByteArray::lastIndexOf(const char *s, int from) const { return lastIndexOf(QByteArray(s), from); }
int QByteArray::count(char c) const { int r = 0; for (int i = 0; i < size(); ++i) r += at(i) == c; return r; }
int QByteArray::count(const QByteArray &s) const { int n = 0, i = -1; while ((i = indexOf(s, i + 1)) != -1) ++n; return n; }
int QByteArray::count(const char *s) const { return count(QByteArray(s)); }
QByteArray &QByteArray::fill(char c, int n) { resize(n < 0 ? size() : n); for (int i = 0; i < size(); ++i) data()[i] = c; return *this; }
QByteArray QByteArray::fromRawData(const char *p, int n) { return QByteArray(p, n); }
QByteArray &QByteArray::insert(int i, const char *p, int n) { if (i < 0 || n <= 0 || !p) return *this; QByteArray r = left(i); while (r.size() < i) r.append(' '); r.append(p, n); r.append(mid(i)); return *this = r; }
QByteArray &QByteArray::insert(int i, const char *p) { return p ? insert(i, p, (int)strlen(p)) : *this; }
QByteArray &QByteArray::insert(int i, const QByteArray &b) { QByteArray t = b; return insert(i, t.constData(), t.size()); }
QByteArray &QByteArray::insert(int i, char c) { return insert(i, &c, 1); }
QByteArray &QByteArray::insert(int i, int n, char c) { return insert(i, QByteArray(n, c)); }
QByteArray &QByteArray::replace(int i, int len, const QByteArray &a) { QByteArray r = left(i); r.append(a); r.append(mid(i + len)); return *this = r; }
QByteArray &QByteArray::replace(int i, int len, const char *a) { return replace(i, len, QByteArray(a)); }
QByteArray &QByteArray::replace(int i, int len, const char *a, int n) { return replace(i, len, QByteArray(a, n)); }
QByteArray &QByteArray::replace(const QByteArray &b, const QByteArray &a) { if (!b.size()) sym_internal_error("QByteArray::replace empty"); int i = 0; while ((i = indexOf(b, i)) != -1) { replace(i, b.size(), a); i += a.size(); } return *this; }
QByteArray &QByteArray::replace(const char *b, const QByteArray &a) { return replace(QByteArray(b), a); }
QByteArray &QByteArray::replace(const char *b, int bn, const char *a, int an) { return replace(QByteArray(b, bn), QByteArray(a, an)); }
QByteArray &QByteArray::replace(char b, const QByteArray &a) { return replace(QByteArray(1, b), a); }
QByteArray &QByteArray::replace(char b, char a) { for (int i = 0; i < size(); ++i) { uchar c = at(i); data()[i] = (char)m_sel(c == (uchar)b, (uchar)a, c); } return *this; }
QList<QByteArray> QByteArray::split(char sep) const { QList<QByteArray> l; int st = 0, e; while ((e = indexOf(sep, st)) != -1) { l.append(mid(st, e - st)); st = e + 1; } l.append(mid(st)); return l; }
QByteArray QByteArray::repeated(int n) const { QByteArray r; for (int i = 0; i < n; ++i) r.append(*this); return r; }
QByteArray QByteArray::number(qlonglong n, int b) { return QString::number(n, b).toLatin1(); }
QByteArray QByteArray::number(uint n, int b) { return QString::number(n, b).toLatin1(); }
QByteArray QByteArray::number(qulonglong n, int b) { return QString::number(n, b).toLatin1(); }
QByteArray &QByteArray::setNum(qlonglong n, int b) { return *this = number(n, b); }
QByteArray &QByteArray::setNum(qulonglong n, int b) { return *this = number(n, b); }
int QByteArray::toInt(bool *ok, int b) const { return QString::fromLatin1(*this).toInt(ok, b); }
uint QByteArray::toUInt(bool *ok, int b) const { return QString::fromLatin1(*this).toUInt(ok, b); }
long QByteArray::toLong(bool *ok, int b) const { return QString::fromLatin1(*this).toLong(ok, b); }
ulong QByteArray::toULong(bool *ok, int b) const { return QString::fromLatin1(*this).toULong(ok, b); }
qlonglong QByteArray::toLongLong(bool *ok, int b) const { return QString::fromLatin1(*this).toLongLong(ok, b); }
qulonglong QByteArray::toULongLong(bool *ok, int b) const { return QString::fromLatin1(*this).toULongLong(ok, b); }
QByteArray QByteArray::simplified_helper(const QByteArray &s) { QByteArray r; bool pend = false; for (int i = 0; i < s.size(); ++i) { uchar c = s.at(i); if ((c == ' ') | ((c >= 9) & (c <= 13))) pend = true; else { if (pend && !r.isEmpty()) r += ' '; pend = false; r += c; } } return r; }
QByteArray QByteArray::simplified_helper(QByteArray &s) { return simplified_helper(const_cast<const QByteArray &>(s)); }
static QByteArray mapc(const QByteArray &s, bool up) { QByteArray r = s; for (int i = 0; i < r.size(); ++i) r.data()[i] = (char)(up ? m_upper((uchar)r.at(i)) : m_lower((uchar)r.at(i))); return r; }
QByteArray QByteArray::toLower_helper(const QByteArray &s) { return mapc(s, false); }
QByteArray QByteArray::toLower_helper(QByteArray &s) { return mapc(s, false); }
QByteArray QByteArray::toUpper_helper(const QByteArray &s) { return mapc(s, true); }
QByteArray QByteArray::toUpper_helper(QByteArray &s) { return mapc(s, true); }
QByteArray QByteArray::leftJustified(int w, char f, bool t) const { QByteArray r = *this; if (r.size() > w && t) r.truncate(w); while (r.size() < w) r.append(f); return r; }
QByteArray QByteArray::rightJustified(int w, char f, bool t) const { QByteArray r; while (r.size() + size() < w) r.append(f); if (size() > w && t) return left(w); r.append(*this); return r; }

// ---------------------------------------------------------------- others
bool QChar::isPunct(uint c) noexcept { return ((c >= 0x21) & (c <= 0x23)) | ((c >= 0x25) & (c <= 0x2a)) | ((c >= 0x2c) & (c <= 0x2f)) | (c == 0x3a) | (c == 0x3b) | (c == 0x3f) | (c == 0x40) | ((c >= 0x5b) & (c <= 0x5d)) | (c == 0x5f) | (c == 0x7b) | (c == 0x7d) | (c == 0xa1) | (c == 0xa7) | (c == 0xab) | (c == 0xb6) | (c == 0xb7) | (c == 0xbb) | (c == 0xbf); }
bool QChar::isPrint(uint c) noexcept { return ((c >= 0x20) & (c < 0x7f)) | ((c >= 0xa0) & (c != 0xad)); }
int QChar::digitValue(uint c) noexcept { return (c >= '0') & (c <= '9') ? (int)c - '0' : -1; }
uint QChar::toTitleCase(uint c) noexcept { return m_upper(c); }
QHashData::Node *QHashData::previousNode(Node *node) {
    union { Node *e; QHashData *d; } a; a.e = node; while (a.e->next) a.e = a.e->next;
    int start; if (node == a.e) start = a.d->numBuckets - 1; else start = node->h % a.d->numBuckets;
    Node *sentinel = node; Node **b = a.d->buckets + start;
    while (start >= 0) { if (*b != sentinel) { Node *p = *b; while (p->next != sentinel) p = p->next; return p; } sentinel = a.e; --b; --start; }
    return a.e;
}
uint qHash(QStringView, uint) noexcept { return 1; }
uint qHash(const QStringRef &, uint) noexcept { return 1; }
uint qHashBits(const void *, size_t, uint) noexcept { return 1; }
int qstricmp(const char *a, const char *b) { if (!a || !b) return a ? 1 : (b ? -1 : 0); for (;; ++a, ++b) { uint x = m_lower((uchar)*a), y = m_lower((uchar)*b); if (x != y) return (int)x - (int)y; if (!x) return 0; } }
char *qstrcpy(char *d, const char *s) { if (!s) return nullptr; return strcpy(d, s); }
