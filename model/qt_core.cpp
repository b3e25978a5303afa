// Model of the QtCore container and string classes (out-of-line parts only; the inline parts are Qt's own headers).
// Covered: ASCII and Latin-1 text. Linked with the bitcode of jom's sources for symbolic execution only.
#include <QtCore/QtCore>
#include <new>
#include <stdlib.h>
#include <string.h>
#include "sym.h"
#include "qt_model.h"

// ---------------------------------------------------------------- QArrayData
const QArrayData QArrayData::shared_null[2] = {
    { Q_REFCOUNT_INITIALIZE_STATIC, 0, 0, 0, sizeof(QArrayData) },
    { { Q_BASIC_ATOMIC_INITIALIZER(0) }, 0, 0, 0, 0 } };
QArrayData *QArrayData::allocate(size_t objectSize, size_t alignment, size_t capacity, AllocationOptions options) noexcept
{
    if (!(options & RawData) && !capacity) return const_cast<QArrayData *>(shared_null);
    size_t hs = sizeof(QArrayData);
    if (alignment > hs) hs = alignment;
    size_t n = hs + ((options & RawData) ? 0 : objectSize * capacity);
    QArrayData *h = static_cast<QArrayData *>(malloc(n));
    h->ref.atomic.storeRelaxed(1);
    h->size = 0;
    h->alloc = (options & RawData) ? 0 : capacity;
    h->capacityReserved = (options & CapacityReserved) ? 1 : 0;
    h->offset = hs;
    return h;
}
void QArrayData::deallocate(QArrayData *data, size_t, size_t) noexcept { free(data); }

// ---------------------------------------------------------------- QListData
const QListData::Data QListData::shared_null = { Q_REFCOUNT_INITIALIZE_STATIC, 0, 0, 0, { nullptr } };
static QListData::Data *listAlloc(int n) {
    QListData::Data *t = static_cast<QListData::Data *>(::malloc(QListData::DataHeaderSize + n * sizeof(void *)));
    t->ref.initializeOwned(); t->alloc = n; t->begin = 0; t->end = 0; return t;
}
QListData::Data *QListData::detach(int alloc) {
    Data *x = d; Data *t = listAlloc(alloc);
    if (!alloc) { t->begin = 0; t->end = 0; } else { t->begin = 0; t->end = x->end - x->begin; }
    d = t; return x;
}
QListData::Data *QListData::detach_grow(int *idx, int num) {
    Data *x = d; int l = x->end - x->begin; int nl = l + num;
    Data *t = listAlloc(nl + 2);
    if (*idx < 0) *idx = 0; else if (*idx > l) *idx = l;
    t->begin = 0; t->end = nl; d = t; return x;
}
void QListData::realloc(int alloc) {
    Data *x = static_cast<Data *>(::realloc(d, DataHeaderSize + alloc * sizeof(void *)));
    d = x; d->alloc = alloc; if (!alloc) d->begin = d->end = 0;
}
void QListData::realloc_grow(int growth) { realloc(d->alloc + growth + 4); }
void QListData::dispose(Data *d) { free(d); }
void **QListData::append(int n) {
    int e = d->end;
    if (e + n > d->alloc) {
        int b = d->begin;
        if (b - n >= 2 * d->alloc / 3) { e -= b; ::memcpy(d->array, d->array + b, e * sizeof(void *)); d->begin = 0; }
        else realloc_grow(n);
    }
    d->end = e + n; return d->array + e;
}
void **QListData::append() { return append(1); }
void **QListData::append(const QListData &l) { return append(l.d->end - l.d->begin); }
void **QListData::prepend() {
    if (d->begin == 0) {
        if (d->end >= d->alloc / 3) realloc_grow(1);
        if (d->end < d->alloc / 3) d->begin = d->alloc - 2 * d->end; else d->begin = d->alloc - d->end;
        ::memmove(d->array + d->begin, d->array, d->end * sizeof(void *));
        d->end += d->begin;
    }
    return d->array + --d->begin;
}
void **QListData::insert(int i) {
    if (i <= 0) return prepend();
    int size = d->end - d->begin;
    if (i >= size) return append();
    if (d->end == d->alloc) realloc_grow(1);
    ::memmove(d->array + d->begin + i + 1, d->array + d->begin + i, (size - i) * sizeof(void *));
    ++d->end; return d->array + d->begin + i;
}
void QListData::remove(int i) {
    i += d->begin;
    ::memmove(d->array + i, d->array + i + 1, (d->end - i - 1) * sizeof(void *));
    d->end--;
}
void QListData::remove(int i, int n) {
    i += d->begin; int middle = i + n / 2; (void)middle;
    ::memmove(d->array + i, d->array + i + n, (d->end - i - n) * sizeof(void *));
    d->end -= n;
}
void QListData::move(int from, int to) {
    void **a = d->array + d->begin; void *t = a[from];
    if (from < to) ::memmove(a + from, a + from + 1, (to - from) * sizeof(void *)); else ::memmove(a + to + 1, a + to, (from - to) * sizeof(void *));
    a[to] = t;
}
void **QListData::erase(void **xi) { int i = xi - (d->array + d->begin); remove(i); return d->array + d->begin + i; }

QtPrivate::QContainerImplHelper::CutResult QtPrivate::QContainerImplHelper::mid(int originalLength, int *_position, int *_length)
{
    int &position = *_position; int &length = *_length;
    if (position > originalLength) return Null;
    if (position < 0) {
        if (length < 0 || length + position >= originalLength) return Full;
        if (length + position <= 0) return Null;
        length += position; position = 0;
    } else if (uint(length) > uint(originalLength - position)) { length = originalLength - position; }
    if (position == 0 && length == originalLength) return Full;
    return length > 0 ? Subset : Empty;
}

// ---------------------------------------------------------------- QHashData
const QHashData QHashData::shared_null = { nullptr, nullptr, Q_REFCOUNT_INITIALIZE_STATIC, 0, 0, 4, 0, 0, 0, 0, false, 0 };
void *QHashData::allocateNode(int) { return malloc(nodeSize); }
void QHashData::freeNode(void *node) { free(node); }
QHashData *QHashData::detach_helper(void (*dup)(Node *, void *), void (*)(Node *), int nsize, int)
{
    QHashData *d = new QHashData;
    d->fakeNext = nullptr; d->buckets = nullptr; d->ref.initializeOwned(); d->size = size; d->nodeSize = nsize;
    d->userNumBits = userNumBits; d->numBits = numBits; d->numBuckets = numBuckets; d->seed = 0; d->sharable = true; d->strictAlignment = 0; d->reserved = 0;
    Node *e = reinterpret_cast<Node *>(d);
    if (numBuckets) {
        d->buckets = new Node *[numBuckets];
        Node *thisE = reinterpret_cast<Node *>(const_cast<QHashData *>(this));
        for (int i = 0; i < numBuckets; ++i) {
            Node **n = &d->buckets[i];
            for (Node *o = buckets[i]; o != thisE; o = o->next) {
                Node *c = static_cast<Node *>(d->allocateNode(0));
                dup(o, c); *n = c; n = &c->next;
            }
            *n = e;
        }
    }
    return d;
}
void QHashData::free_helper(void (*del)(Node *)) {
    if (del) {
        Node *e = reinterpret_cast<Node *>(this);
        for (int i = 0; i < numBuckets; ++i) for (Node *c = buckets[i]; c != e;) { Node *n = c->next; del(c); freeNode(c); c = n; }
    }
    delete[] buckets; delete this;
}
QHashData::Node *QHashData::nextNode(Node *node) {
    union { Node *next; Node *e; QHashData *d; } a;
    a.next = node->next;
    if (a.next->next) return a.next;
    int start = (node->h % a.d->numBuckets) + 1; Node **b = a.d->buckets + start; int n = a.d->numBuckets - start;
    while (n--) { if (*b != a.e) return *b; ++b; }
    return a.e;
}
void QHashData::rehash(int) { // a single size is enough for the tables explored
    if (numBuckets) return;
    numBits = 6; numBuckets = 1 << 20; // never grows again
    numBuckets = 61;
    Node *e = reinterpret_cast<Node *>(this);
    buckets = new Node *[numBuckets];
    for (int i = 0; i < numBuckets; ++i) buckets[i] = e;
}
uint qHash(const QString &, uint) noexcept { return 1; }
uint qHash(const QByteArray &, uint) noexcept { return 1; }
uint qHash(QLatin1String, uint) noexcept { return 1; }

// ---------------------------------------------------------------- QMapDataBase (unbalanced binary search tree)
const QMapDataBase QMapDataBase::shared_null = { Q_REFCOUNT_INITIALIZE_STATIC, 0, { 0, nullptr, nullptr }, nullptr };
const QMapNodeBase *QMapNodeBase::nextNode() const {
    const QMapNodeBase *n = this;
    if (n->right) { n = n->right; while (n->left) n = n->left; }
    else { const QMapNodeBase *y = n->parent(); while (y && n == y->right) { n = y; y = n->parent(); } n = y; }
    return n;
}
const QMapNodeBase *QMapNodeBase::previousNode() const {
    const QMapNodeBase *n = this;
    if (n->left) { n = n->left; while (n->right) n = n->right; }
    else { const QMapNodeBase *y = n->parent(); while (y && n == y->left) { n = y; y = n->parent(); } n = y; }
    return n;
}
QMapDataBase *QMapDataBase::createData() {
    QMapDataBase *d = new QMapDataBase; d->ref.initializeOwned(); d->size = 0; d->header.p = 0; d->header.left = nullptr; d->header.right = nullptr; d->mostLeftNode = &d->header; return d;
}
void QMapDataBase::freeData(QMapDataBase *d) { delete d; }
void QMapDataBase::recalcMostLeftNode() { mostLeftNode = &header; while (mostLeftNode->left) mostLeftNode = mostLeftNode->left; }
QMapNodeBase *QMapDataBase::createNode(int sz, int, QMapNodeBase *parent, bool left) {
    QMapNodeBase *n = (QMapNodeBase *)malloc(sz); memset((void *)n, 0, sz); ++size;
    if (parent) { if (left) { parent->left = n; if (parent == mostLeftNode) mostLeftNode = n; } else parent->right = n; n->setParent(parent); }
    return n;
}
static void freeSub(QMapNodeBase *n) { if (n->left) freeSub(n->left); if (n->right) freeSub(n->right); free(n); }
void QMapDataBase::freeTree(QMapNodeBase *root, int) { freeSub(root); }
void QMapDataBase::freeNodeAndRebalance(QMapNodeBase *z) {
    QMapNodeBase *p = z->parent(); QMapNodeBase *r;
    if (!z->left) r = z->right; else if (!z->right) r = z->left;
    else { // successor
        QMapNodeBase *s = z->right; while (s->left) s = s->left;
        if (s != z->right) { QMapNodeBase *sp = s->parent(); sp->left = s->right; if (s->right) s->right->setParent(sp); s->right = z->right; z->right->setParent(s); }
        s->left = z->left; z->left->setParent(s); r = s;
    }
    if (r) r->setParent(p);
    if (p->left == z) p->left = r; else p->right = r;
    recalcMostLeftNode(); --size; free(z);
}

// ---------------------------------------------------------------- QChar
uint QChar::toUpper(uint c) noexcept { return m_upper(c); }
uint QChar::toLower(uint c) noexcept { return m_lower(c); }
bool QChar::isSpace_helper(uint) noexcept { return false; }
bool QChar::isLetter_helper(uint c) noexcept { return (c == 0xaa) | (c == 0xb5) | (c == 0xba) | ((c >= 0xc0) & (c != 0xd7) & (c != 0xf7) & (c < 0x250)); }
bool QChar::isNumber_helper(uint c) noexcept { return (c == 0xb2) | (c == 0xb3) | (c == 0xb9) | ((c >= 0xbc) & (c <= 0xbe)); }
bool QChar::isLetterOrNumber_helper(uint c) noexcept { return isLetter_helper(c) | isNumber_helper(c); }
QChar::Category QChar::category(uint c) noexcept {
    if (c >= '0' && c <= '9') return Number_DecimalDigit;
    if (c >= 'A' && c <= 'Z') return Letter_Uppercase;
    if (c >= 'a' && c <= 'z') return Letter_Lowercase;
    return Symbol_Other;
}

// ---------------------------------------------------------------- QString
typedef QTypedArrayData<ushort> SD;
static inline const ushort *U(const QString &s) { return reinterpret_cast<const ushort *>(s.constData()); }
static SD *sAlloc(int n) { SD *d = static_cast<SD *>(QArrayData::allocate(sizeof(ushort), alignof(SD), n + 1)); d->size = n; d->data()[n] = 0; return d; }
static QString mk(const ushort *p, int n) { return QString(reinterpret_cast<const QChar *>(p), n); }

QString::QString(const QChar *u, int size) {
    if (!u) { d = Data::sharedNull(); return; }
    if (size < 0) { size = 0; while (!u[size].isNull()) ++size; }
    if (!size) { QStringDataPtr p = { Data::allocate(0 + 1) }; d = p.ptr; d->size = 0; d->data()[0] = 0; return; }
    d = sAlloc(size); memcpy(d->data(), u, size * 2);
}
QString::QString(int size, QChar ch) { d = sAlloc(size < 0 ? 0 : size); for (int i = 0; i < size; ++i) d->data()[i] = ch.unicode(); }
QString::QString(int size, Qt::Initialization) { d = sAlloc(size); }
QString::QString(QChar ch) { d = sAlloc(1); d->data()[0] = ch.unicode(); }
void QString::reallocData(uint alloc, bool) {
    SD *x = static_cast<SD *>(QArrayData::allocate(2, alignof(SD), alloc));
    x->size = qMin(int(alloc) - 1, d->size);
    memcpy(x->data(), d->data(), x->size * 2); x->data()[x->size] = 0;
    x->capacityReserved = d->capacityReserved;
    if (!d->ref.deref()) Data::deallocate(d);
    d = x;
}
void QString::expand(int i) { resize(qMax(i + 1, d->size)); }
void QString::resize(int size) {
    if (size < 0) size = 0;
    if (d->ref.isShared() || uint(size) + 1u > d->alloc) reallocData(uint(size) + 1u, true);
    if (d->alloc) { d->size = size; d->data()[size] = 0; }
}
void QString::resize(int size, QChar fill) { int o = length(); resize(size); for (int i = o; i < size; ++i) d->data()[i] = fill.unicode(); }
QString &QString::operator=(const QString &o) noexcept { o.d->ref.ref(); if (!d->ref.deref()) Data::deallocate(d); d = o.d; return *this; }
QString &QString::operator=(QLatin1String o) { return *this = QString(o); }
QString &QString::operator=(QChar c) { return *this = QString(c); }
QString::Data *QString::fromLatin1_helper(const char *str, int size) {
    if (!str) return Data::sharedNull();
    if (size < 0) size = (int)strlen(str);
    if (!size) { Data *x = Data::allocate(1); x->size = 0; x->data()[0] = 0; return x; }
    Data *x = sAlloc(size); for (int i = 0; i < size; ++i) x->data()[i] = (uchar)str[i]; return x;
}
QString QString::fromUtf8_helper(const char *str, int size) {
    if (!str) return QString();
    QString r; r.reserve(size);
    for (int i = 0; i < size; ++i) {
        uchar c = str[i];
        if (c < 0x80) r += QChar(ushort(c));
        else if (c >= 0xc2 && c < 0xe0 && i + 1 < size && ((uchar)str[i + 1] & 0xc0) == 0x80) { r += QChar(ushort(((c & 31) << 6) | ((uchar)str[i + 1] & 63))); ++i; }
        else if (c == 0xef && i + 2 < size && (uchar)str[i + 1] == 0xbb && (uchar)str[i + 2] == 0xbf) { if (i) r += QChar(ushort(0xfeff)); i += 2; }
        else if (c >= 0xe0 && c < 0xf0 && i + 2 < size && ((uchar)str[i + 1] & 0xc0) == 0x80 && ((uchar)str[i + 2] & 0xc0) == 0x80) { uint u = ((c & 15) << 12) | (((uchar)str[i + 1] & 63) << 6) | ((uchar)str[i + 2] & 63); if (u < 0x800 || (u >= 0xd800 && u < 0xe000)) { r += QChar(ushort(0xfffd)); continue; } r += QChar(ushort(u)); i += 2; }
        else r += QChar(ushort(0xfffd));
    }
    return r;
}
QString QString::fromLocal8Bit_helper(const char *str, int size) { return fromUtf8_helper(str, size < 0 ? (int)strlen(str) : size); } // the replay runs in a UTF-8 locale
QString QString::fromUtf16(const ushort *u, int size) { if (!u) return QString(); if (size < 0) { size = 0; while (u[size]) ++size; } return mk(u, size); }
QByteArray QString::toUtf8_helper(const QString &s) {
    QByteArray r; r.reserve(s.size());
    for (int i = 0; i < s.size(); ++i) {
        ushort c = s.at(i).unicode();
        if (c < 0x80) r.append((char)c);
        else if (c < 0x800) { r.append(char(0xc0 | (c >> 6))); r.append(char(0x80 | (c & 63))); }
        else { r.append(char(0xe0 | (c >> 12))); r.append(char(0x80 | ((c >> 6) & 63))); r.append(char(0x80 | (c & 63))); }
    }
    return r;
}
QByteArray QString::toLocal8Bit_helper(const QChar *p, int n) { if (!p) return QByteArray(); return toUtf8_helper(QString(p, n)); }
QByteArray QString::toLatin1_helper(const QString &s) { QByteArray r; r.resize(s.size()); for (int i = 0; i < s.size(); ++i) r.data()[i] = (char)s.at(i).unicode(); return r; }
const ushort *QString::utf16() const { return d->data(); }

QString &QString::append(const QString &o) {
    if (o.d != Data::sharedNull()) {
        if (d == Data::sharedNull()) { operator=(o); }
        else {
            int n = d->size, m = o.d->size;
            if (d->ref.isShared() || uint(n + m) + 1u > d->alloc) {
                SD *x = sAlloc(n + m); memcpy(x->data(), d->data(), n * 2); memcpy(x->data() + n, o.d->data(), m * 2);
                if (!d->ref.deref()) Data::deallocate(d); d = x;
            } else { memcpy(d->data() + n, o.d->data(), m * 2); d->size = n + m; d->data()[n + m] = 0; }
        }
    }
    return *this;
}
QString &QString::append(QChar c) { int n = d->size; resize(n + 1); d->data()[n] = c.unicode(); return *this; }
QString &QString::append(QLatin1String o) { return append(QString(o)); }
QString &QString::append(const QChar *p, int n) { return append(QString(p, n)); }
QString &QString::insert(int i, const QChar *p, int n) {
    if (i < 0 || n <= 0) return *this;
    int len = d->size; int nl = qMax(i, len) + n;
    SD *x = sAlloc(nl);
    int pre = qMin(i, len);
    memcpy(x->data(), d->data(), pre * 2);
    for (int k = pre; k < i; ++k) x->data()[k] = ' ';
    memcpy(x->data() + i, p, n * 2);
    if (i < len) memcpy(x->data() + i + n, d->data() + i, (len - i) * 2);
    if (!d->ref.deref()) Data::deallocate(d);
    d = x; return *this;
}
QString &QString::insert(int i, QChar c) { if (i < 0) i += d->size; if (i < 0) return *this; return insert(i, &c, 1); }
QString &QString::insert(int i, QLatin1String s) { QString t(s); return insert(i, t.constData(), t.size()); }
QString &QString::remove(int pos, int len) {
    if (pos < 0) pos += d->size;
    if (uint(pos) >= uint(d->size)) { return *this; }
    if (len >= d->size - pos) { resize(pos); return *this; }
    if (len > 0) { detach(); memmove(d->data() + pos, d->data() + pos + len, (d->size - pos - len + 1) * 2); d->size -= len; }
    return *this;
}
QString &QString::remove(QChar c, Qt::CaseSensitivity cs) { int i = 0; while ((i = indexOf(c, i, cs)) != -1) remove(i, 1); return *this; }
QString &QString::replace(int pos, int len, const QString &after) {
    if (uint(pos) > uint(d->size)) return *this;
    if (len > d->size - pos) len = d->size - pos;
    QString r = left(pos); r.append(after); r.append(mid(pos + len)); return *this = r;
}
QString &QString::replace(const QString &before, const QString &after, Qt::CaseSensitivity cs) {
    if (!d->size) { if (before.d->size) return *this; }
    else if (cs == Qt::CaseSensitive && before == after) return *this;
    if (!before.d->size) { QString r; for (int i = 0; i < size(); ++i) { r.append(after); r.append(at(i)); } r.append(after); return *this = r; }
    int idx = 0;
    while ((idx = indexOf(before, idx, cs)) != -1) { replace(idx, before.size(), after); idx += after.size(); }
    return *this;
}
QString &QString::replace(QLatin1String b, QLatin1String a, Qt::CaseSensitivity cs) { return replace(QString(b), QString(a), cs); }
QString &QString::replace(QLatin1String b, const QString &a, Qt::CaseSensitivity cs) { return replace(QString(b), a, cs); }
QString &QString::replace(const QString &b, QLatin1String a, Qt::CaseSensitivity cs) { return replace(b, QString(a), cs); }
QString &QString::replace(QChar b, const QString &a, Qt::CaseSensitivity cs) { return replace(QString(b), a, cs); }
QString &QString::replace(QChar b, QLatin1String a, Qt::CaseSensitivity cs) { return replace(QString(b), QString(a), cs); }
QString &QString::replace(QChar b, QChar a, Qt::CaseSensitivity) {
    bool any = false;
    for (int i = 0; i < d->size; ++i) any |= d->data()[i] == b.unicode();
    if (!any) return *this;
    detach();
    for (int i = 0; i < d->size; ++i) { ushort c = d->data()[i]; d->data()[i] = m_sel(c == b.unicode(), a.unicode(), c); }
    return *this;
}
QString QString::left(int n) const { if (uint(n) >= uint(d->size)) return *this; return mk(d->data(), n); }
QString QString::right(int n) const { if (uint(n) >= uint(d->size)) return *this; return mk(d->data() + d->size - n, n); }
QString QString::mid(int pos, int len) const {
    using namespace QtPrivate;
    switch (QContainerImplHelper::mid(d->size, &pos, &len)) {
    case QContainerImplHelper::Null: return QString();
    case QContainerImplHelper::Empty: { Data *x = Data::allocate(1); x->size = 0; x->data()[0] = 0; QStringDataPtr p = { x }; return QString(p); }
    case QContainerImplHelper::Full: return *this;
    case QContainerImplHelper::Subset: return mk(d->data() + pos, len);
    }
    return QString();
}
QStringRef QString::midRef(int pos, int len) const {
    using namespace QtPrivate;
    switch (QContainerImplHelper::mid(d->size, &pos, &len)) {
    case QContainerImplHelper::Null: return QStringRef();
    case QContainerImplHelper::Empty: return QStringRef(this, 0, 0);
    case QContainerImplHelper::Full: return QStringRef(this, 0, d->size);
    case QContainerImplHelper::Subset: return QStringRef(this, pos, len);
    }
    return QStringRef();
}
QStringRef QString::leftRef(int n) const { return QStringRef(this, 0, uint(n) >= uint(d->size) ? d->size : n); }
QStringRef QString::rightRef(int n) const { if (uint(n) >= uint(d->size)) return QStringRef(this, 0, d->size); return QStringRef(this, d->size - n, n); }
QString QStringRef::toString() const { return m_string ? QString(unicode(), m_size) : QString(); }
void QString::truncate(int pos) { if (pos < d->size) resize(pos); }
void QString::chop(int n) { if (n > 0) resize(d->size - n); }

static inline ushort foldc(ushort c, Qt::CaseSensitivity cs) { return cs == Qt::CaseSensitive ? c : (ushort)m_lower(c); }
static bool eqN(const ushort *a, const ushort *b, int n, Qt::CaseSensitivity cs) {
    if (cs == Qt::CaseSensitive) return memcmp(a, b, n * 2) == 0;
    unsigned r = 0; for (int i = 0; i < n; ++i) r |= foldc(a[i], cs) ^ foldc(b[i], cs); return r == 0;
}
bool operator==(const QString &a, const QString &b) noexcept { if (a.size() != b.size()) return false; return eqN(U(a), U(b), a.size(), Qt::CaseSensitive); }
bool QString::operator==(QLatin1String o) const noexcept {
    if (o.size() != d->size) return false;
    unsigned r = 0; const char *p = o.latin1(); for (int i = 0; i < d->size; ++i) r |= d->data()[i] ^ (uchar)p[i]; return r == 0;
}
static int cmpN(const ushort *a, int n, const ushort *b, int m, Qt::CaseSensitivity cs) {
    int l = n < m ? n : m, r = n - m;
    for (int i = l; i-- > 0;) { int x = foldc(a[i], cs), y = foldc(b[i], cs); r = m_seli(x == y, r, x - y); }
    return r;
}
bool operator<(const QString &a, const QString &b) noexcept { return cmpN(U(a), a.size(), U(b), b.size(), Qt::CaseSensitive) < 0; }
int QString::compare(const QString &o, Qt::CaseSensitivity cs) const noexcept { return cmpN(U(*this), size(), U(o), o.size(), cs); }
int QString::compare(QLatin1String o, Qt::CaseSensitivity cs) const noexcept { return compare(QString(o), cs); }
int QString::compare_helper(const QChar *a, int n, const QChar *b, int m, Qt::CaseSensitivity cs) noexcept { return cmpN((const ushort *)a, n, (const ushort *)b, m, cs); }
int QtPrivate::compareStrings(QStringView a, QStringView b, Qt::CaseSensitivity cs) noexcept { return cmpN((const ushort *)a.utf16(), a.size(), (const ushort *)b.utf16(), b.size(), cs); }

int QString::indexOf(QChar ch, int from, Qt::CaseSensitivity cs) const {
    int n = d->size; if (from < 0) from = qMax(from + n, 0);
    ushort c = foldc(ch.unicode(), cs);
    for (int i = from; i < n; ++i) if (foldc(d->data()[i], cs) == c) return i;
    return -1;
}
int QString::indexOf(const QString &s, int from, Qt::CaseSensitivity cs) const {
    int n = d->size, m = s.size(); if (from < 0) from += n;
    if (uint(m + from) > uint(n)) return -1;
    if (!m) return from;
    if (!n) return -1;
    for (int i = from; i + m <= n; ++i) if (eqN(d->data() + i, U(s), m, cs)) return i;
    return -1;
}
int QString::indexOf(QLatin1String s, int from, Qt::CaseSensitivity cs) const { return indexOf(QString(s), from, cs); }
int QString::lastIndexOf(QChar ch, int from, Qt::CaseSensitivity cs) const {
    int n = d->size; if (from < 0) from += n; if (uint(from) >= uint(n)) return -1;
    ushort c = foldc(ch.unicode(), cs);
    for (int i = from; i >= 0; --i) if (foldc(d->data()[i], cs) == c) return i;
    return -1;
}
int QString::lastIndexOf(const QString &s, int from, Qt::CaseSensitivity cs) const {
    int n = d->size, m = s.size(); if (from < 0) from += n;
    if (m == 0 && from == n) return from;
    if (uint(from) >= uint(n)) return -1;
    if (from > n - m) from = n - m;
    if (from < 0) return -1;
    for (int i = from; i >= 0; --i) if (eqN(d->data() + i, U(s), m, cs)) return i;
    return -1;
}
int QString::lastIndexOf(QLatin1String s, int from, Qt::CaseSensitivity cs) const { return lastIndexOf(QString(s), from, cs); }
int QString::count(QChar ch, Qt::CaseSensitivity cs) const { int r = 0; ushort c = foldc(ch.unicode(), cs); for (int i = 0; i < d->size; ++i) r += foldc(d->data()[i], cs) == c; return r; }
bool QString::startsWith(const QString &s, Qt::CaseSensitivity cs) const { if (!d->size && !s.size()) return !s.isNull() ? !isNull() || true : true; if (s.size() > d->size) return false; return eqN(d->data(), U(s), s.size(), cs); }
bool QString::startsWith(QLatin1String s, Qt::CaseSensitivity cs) const { return startsWith(QString(s), cs); }
bool QString::startsWith(QChar c, Qt::CaseSensitivity cs) const { return d->size && foldc(d->data()[0], cs) == foldc(c.unicode(), cs); }
bool QString::endsWith(const QString &s, Qt::CaseSensitivity cs) const { if (s.size() > d->size) return false; return eqN(d->data() + d->size - s.size(), U(s), s.size(), cs); }
bool QString::endsWith(QLatin1String s, Qt::CaseSensitivity cs) const { return endsWith(QString(s), cs); }
bool QString::endsWith(QChar c, Qt::CaseSensitivity cs) const { return d->size && foldc(d->data()[d->size - 1], cs) == foldc(c.unicode(), cs); }
bool QString::isUpper() const { if (isEmpty()) return false; for (int i = 0; i < size(); ++i) if (!(at(i).unicode() >= 65 && at(i).unicode() <= 90)) return false; return true; }

QString QString::trimmed_helper(const QString &s) {
    const ushort *p = U(s); int b = 0, e = s.size();
    while (b < e && m_space(p[e - 1])) --e;
    while (b < e && m_space(p[b])) ++b;
    if (b == 0 && e == s.size()) return s;
    if (b == e) return QString::fromUtf16(p, 0);
    return mk(p + b, e - b);
}
QString QString::trimmed_helper(QString &s) { return trimmed_helper(const_cast<const QString &>(s)); }
QString QString::simplified_helper(const QString &s) {
    QString r; bool pend = false; const ushort *p = U(s);
    for (int i = 0; i < s.size(); ++i) { if (m_space(p[i])) pend = true; else { if (pend && !r.isEmpty()) r += QLatin1Char(' '); pend = false; r += QChar(p[i]); } }
    return r;
}
static QString mapCase(const QString &s, bool up) { QString r = s; if (!r.size()) return r; ushort *p = reinterpret_cast<ushort *>(r.data()); for (int i = 0; i < r.size(); ++i) p[i] = up ? m_upper(p[i]) : m_lower(p[i]); return r; }
QString QString::toLower_helper(const QString &s) { return mapCase(s, false); }
QString QString::toLower_helper(QString &s) { return mapCase(s, false); }
QString QString::toUpper_helper(const QString &s) { return mapCase(s, true); }
QString QString::toUpper_helper(QString &s) { return mapCase(s, true); }
QString QString::toCaseFolded_helper(const QString &s) { return mapCase(s, false); }
QString QString::toCaseFolded_helper(QString &s) { return mapCase(s, false); }
uint QChar::toCaseFolded(uint c) noexcept { return QChar::toLower(c); }

static QString numStr(qulonglong v, bool neg, int base) {
    char b[72]; int i = 72;
    if (base == 10 && !sym_is_const(v)) {   // numbers stay symbolic, only their length is decided
        if (v <= 0xffffffffu) { uint32_t w = (uint32_t)v; int n = 1; for (qulonglong p = 10; n < 10 && w >= p; p *= 10) ++n; for (int k = 0; k < n; ++k) { b[--i] = (char)('0' + w % 10); w /= 10; } }
        else { qulonglong w = v; int n = 10; for (qulonglong p = 10000000000ull; n < 19 && w >= p; p *= 10) ++n; if (n == 19 && w >= 10000000000000000000ull) ++n; for (int k = 0; k < n; ++k) { b[--i] = (char)('0' + (int)(w % 10)); w /= 10; } }
        if (neg) b[--i] = '-';
        return QString::fromLatin1(b + i, 72 - i);
    }
    v = sym_concretize(v); do { int x = (int)(v % base); b[--i] = x < 10 ? '0' + x : 'a' + x - 10; v /= base; } while (v);
    if (neg) b[--i] = '-';
    return QString::fromLatin1(b + i, 72 - i);
}
QString QString::number(int n, int base) { return number((qlonglong)n, base); }
QString QString::number(uint n, int base) { return numStr(n, false, base); }
QString QString::number(long n, int base) { return number((qlonglong)n, base); }
QString QString::number(ulong n, int base) { return numStr(n, false, base); }
QString QString::number(qlonglong n, int base) { if (n < 0 && base == 10) return numStr(0 - (qulonglong)n, true, base); return numStr((qulonglong)n, false, base); }
QString QString::number(qulonglong n, int base) { return numStr(n, false, base); }

static qulonglong parseNum(const QString &s, bool *ok, int base, bool isSigned, qulonglong max, qulonglong maxNeg, bool *negOut) {
    const ushort *p = U(s); int b = 0, e = s.size(); bool neg = false; qulonglong v = 0;
    if (ok) *ok = false; *negOut = false;
    while (b < e && m_space(p[b])) ++b;
    while (b < e && m_space(p[e - 1])) --e;
    if (b == e) return 0;
    if (p[b] == '-') { if (!isSigned) return 0; neg = true; ++b; } else if (p[b] == '+') ++b;
    if (b == e) return 0;
    if (base != 10) sym_internal_error("number base");
    for (int i = b; i < e; ++i) {
        if (p[i] < '0' || p[i] > '9') return 0;
        unsigned dgt = p[i] - '0';
        if (i - b >= 19 && v > (~0ULL - dgt) / 10) return 0;
        v = v * 10 + dgt;
    }
    if (e - b >= 10 && v > (neg ? maxNeg : max)) return 0;
    if (ok) *ok = true; *negOut = neg; return v;
}
uint QString::toUInt(bool *ok, int base) const { bool n; return (uint)parseNum(*this, ok, base, false, 0xffffffffu, 0, &n); }
int QString::toInt(bool *ok, int base) const { bool n; qulonglong v = parseNum(*this, ok, base, true, 0x7fffffffu, 0x80000000u, &n); return n ? (int)(0 - v) : (int)v; }
qulonglong QString::toULongLong(bool *ok, int base) const { bool n; return parseNum(*this, ok, base, false, ~0ULL, 0, &n); }
qlonglong QString::toLongLong(bool *ok, int base) const { bool n; qulonglong v = parseNum(*this, ok, base, true, 0x7fffffffffffffffULL, 0x8000000000000000ULL, &n); return n ? (qlonglong)(0 - v) : (qlonglong)v; }
ulong QString::toULong(bool *ok, int base) const { return toULongLong(ok, base); }
long QString::toLong(bool *ok, int base) const { return toLongLong(ok, base); }

// %1..%99 substitution: the lowest numbered place marker is replaced
static int escapeAt(const ushort *p, int n, int i, int *len) {
    if (p[i] != '%') return -1;
    int j = i + 1; if (j < n && p[j] == 'L') ++j;
    if (j >= n || p[j] < '0' || p[j] > '9') return -1;
    int v = p[j] - '0'; ++j;
    if (j < n && p[j] >= '0' && p[j] <= '9') { v = v * 10 + p[j] - '0'; ++j; }
    *len = j - i; return v;
}
static QString argOne(const QString &s, const QString &a, int fw, QChar fill) {
    const ushort *p = U(s); int n = s.size(), best = 1000, len;
    for (int i = 0; i < n; ++i) { int v = escapeAt(p, n, i, &len); if (v >= 0) { if (v < best) best = v; i += len - 1; } }
    if (best == 1000) return s;
    QString pad; while (pad.size() + a.size() < qAbs(fw)) pad.append(fill);
    QString r; int st = 0;
    for (int i = 0; i < n; ++i) { int v = escapeAt(p, n, i, &len); if (v == best) { r.append(mk(p + st, i - st)); if (fw > 0) r.append(pad); r.append(a); if (fw < 0) r.append(pad); st = i + len; } if (v >= 0) i += len - 1; }
    r.append(mk(p + st, n - st)); return r;
}
QString QString::arg(const QString &a, int fw, QChar fill) const { return argOne(*this, a, fw, fill); }
QString QString::arg(qlonglong a, int fw, int base, QChar fill) const { return argOne(*this, number(a, base), fw, fill); }
QString QString::arg(qulonglong a, int fw, int base, QChar fill) const { return argOne(*this, number(a, base), fw, fill); }
QString QString::arg(QLatin1String a, int fw, QChar fill) const { return argOne(*this, QString(a), fw, fill); }
QString QString::arg(QChar a, int fw, QChar fill) const { return argOne(*this, QString(a), fw, fill); }
QString QtPrivate::argToQString(QStringView pattern, size_t numArgs, const ArgBase **args) {
    const ushort *p = (const ushort *)pattern.utf16(); int n = (int)pattern.size(), len; bool used[100] = {};
    for (int i = 0; i < n; ++i) { int v = escapeAt(p, n, i, &len); if (v >= 0) { used[v] = true; i += len - 1; } }
    int map[100]; size_t k = 0; for (int v = 0; v < 100; ++v) map[v] = used[v] && k < numArgs ? (int)k++ : -1;
    QString r; int st = 0;
    for (int i = 0; i < n; ++i) {
        int v = escapeAt(p, n, i, &len); if (v < 0) continue;
        if (map[v] >= 0) {
            r.append(mk(p + st, i - st));
            const ArgBase *b = args[map[v]];
            if (b->tag == ArgBase::L1) r.append(QString(static_cast<const QLatin1StringArg *>(b)->string));
            else if (b->tag == ArgBase::U16) { QStringView sv = static_cast<const QStringViewArg *>(b)->string; r.append(mk((const ushort *)sv.utf16(), (int)sv.size())); }
            else sym_internal_error("arg kind");
            st = i + len;
        }
        i += len - 1;
    }
    r.append(mk(p + st, n - st)); return r;
}
static QStringList splitCh(const QString &s, QChar sep, bool skip) {
    QStringList l; int st = 0, e; 
    while ((e = s.indexOf(sep, st)) != -1) { if (st != e || !skip) l.append(s.mid(st, e - st)); st = e + 1; }
    if (st != s.size() || !skip) l.append(s.mid(st)); return l;
}
QStringList QString::split(QChar sep, SplitBehavior b, Qt::CaseSensitivity) const { return splitCh(*this, sep, b == SkipEmptyParts); }
QStringList QString::split(QChar sep, Qt::SplitBehavior b, Qt::CaseSensitivity) const { return splitCh(*this, sep, b & Qt::SkipEmptyParts); }
QStringList m_splitClass(const QString &s, bool (*cls)(ushort), bool skip) {
    QStringList l; int st = 0; const ushort *p = U(s); int n = s.size();
    for (int i = 0; i < n; ++i) if (cls(p[i])) { if (st != i || !skip) l.append(s.mid(st, i - st)); st = i + 1; }
    if (st != n || !skip) l.append(s.mid(st)); return l;
}
bool QtPrivate::QStringList_contains(const QStringList *l, const QString &s, Qt::CaseSensitivity cs) { for (int i = 0; i < l->size(); ++i) if (l->at(i).size() == s.size() && eqN(U(l->at(i)), U(s), s.size(), cs)) return true; return false; }
bool QtPrivate::QStringList_contains(const QStringList *l, QLatin1String s, Qt::CaseSensitivity cs) { QString t(s); return QStringList_contains(l, t, cs); }
bool QtPrivate::QStringList_contains(const QStringList *l, QStringView s, Qt::CaseSensitivity cs) { QString t = s.toString(); return QStringList_contains(l, t, cs); }
QString QtPrivate::QStringList_join(const QStringList *l, const QChar *sep, int n) { QString r, sp = sep ? QString(sep, n) : QString(); for (int i = 0; i < l->size(); ++i) { if (i) r.append(sp); r.append(l->at(i)); } return r; }
QString QtPrivate::QStringList_join(const QStringList &l, QLatin1String sep) { QString r, sp(sep); for (int i = 0; i < l.size(); ++i) { if (i) r.append(sp); r.append(l.at(i)); } return r; }
int QtPrivate::QStringList_removeDuplicates(QStringList *l) {
    int n = l->size(), j = 0; QStringList o;
    for (int i = 0; i < n; ++i) { bool dup = false; for (int k = 0; k < o.size(); ++k) if (o.at(k) == l->at(i)) { dup = true; break; } if (!dup) { o.append(l->at(i)); ++j; } }
    if (n != j) *l = o; return n - j;
}
void QtPrivate::QStringList_sort(QStringList *l, Qt::CaseSensitivity cs) { for (int i = 1; i < l->size(); ++i) for (int k = i; k > 0 && l->at(k).compare(l->at(k - 1), cs) < 0; --k) l->swapItemsAt(k, k - 1); }
QStringList QtPrivate::QStringList_filter(const QStringList *l, const QString &s, Qt::CaseSensitivity cs) { QStringList r; for (int i = 0; i < l->size(); ++i) if (l->at(i).indexOf(s, 0, cs) >= 0) r.append(l->at(i)); return r; }

// ---------------------------------------------------------------- QByteArray
typedef QTypedArrayData<char> BD;
static BD *bAlloc(int n) { BD *d = static_cast<BD *>(QArrayData::allocate(1, alignof(BD), n + 1)); d->size = n; d->data()[n] = 0; return d; }
QByteArray::QByteArray(const char *p, int size) {
    if (!p) { d = Data::sharedNull(); return; }
    if (size < 0) size = (int)strlen(p);
    d = bAlloc(size); memcpy(d->data(), p, size);
}
QByteArray::QByteArray(int size, char ch) { d = bAlloc(size < 0 ? 0 : size); memset(d->data(), ch, d->size); }
QByteArray::QByteArray(int size, Qt::Initialization) { d = bAlloc(size); }
void QByteArray::reallocData(uint alloc, Data::AllocationOptions) {
    BD *x = static_cast<BD *>(QArrayData::allocate(1, alignof(BD), alloc)); x->size = qMin(int(alloc) - 1, d->size);
    memcpy(x->data(), d->data(), x->size); x->data()[x->size] = 0; x->capacityReserved = d->capacityReserved;
    if (!d->ref.deref()) Data::deallocate(d); d = x;
}
void QByteArray::resize(int size) {
    if (size < 0) size = 0;
    if (d->ref.isShared() || uint(size) + 1u > d->alloc) reallocData(uint(size) + 1u, d->detachFlags());
    if (d->alloc) { d->size = size; d->data()[size] = 0; }
}
void QByteArray::expand(int i) { resize(qMax(i + 1, d->size)); }
QByteArray &QByteArray::operator=(const QByteArray &o) noexcept { o.d->ref.ref(); if (!d->ref.deref()) Data::deallocate(d); d = o.d; return *this; }
QByteArray &QByteArray::operator=(const char *s) { return *this = QByteArray(s); }
bool QByteArray::isNull() const { return d == QArrayData::sharedNull(); }
void QByteArray::clear() { if (!d->ref.deref()) Data::deallocate(d); d = Data::sharedNull(); }
void QByteArray::truncate(int p) { if (p < d->size) resize(p); }
void QByteArray::chop(int n) { if (n > 0) resize(d->size - n); }
QByteArray &QByteArray::append(const char *p, int n) {
    if (n < 0) n = p ? (int)strlen(p) : 0;
    if (p && n) { int o = d->size; BD *x = nullptr; if (d->ref.isShared() || uint(o + n) + 1u > d->alloc) { x = bAlloc(o + n); memcpy(x->data(), d->data(), o); memcpy(x->data() + o, p, n); if (!d->ref.deref()) Data::deallocate(d); d = x; } else { memcpy(d->data() + o, p, n); d->size = o + n; d->data()[o + n] = 0; } }
    return *this;
}
QByteArray &QByteArray::append(const QByteArray &o) { if (d->size == 0 && d->ref.isStatic()) { *this = o; return *this; } if (o.d->size) append(o.d->data(), o.d->size); return *this; }
QByteArray &QByteArray::append(const char *p) { return append(p, -1); }
QByteArray &QByteArray::append(char c) { return append(&c, 1); }
QByteArray &QByteArray::prepend(const char *p, int n) { QByteArray r(p, n); r.append(*this); return *this = r; }
QByteArray &QByteArray::prepend(const char *p) { return prepend(p, (int)strlen(p)); }
QByteArray &QByteArray::prepend(const QByteArray &o) { QByteArray r(o); r.append(*this); return *this = r; }
QByteArray &QByteArray::prepend(char c) { return prepend(&c, 1); }
QByteArray &QByteArray::remove(int pos, int len) {
    if (len <= 0 || uint(pos) >= uint(d->size)) return *this;
    detach();
    if (len >= d->size - pos) resize(pos); else { memmove(d->data() + pos, d->data() + pos + len, d->size - pos - len + 1); d->size -= len; }
    return *this;
}
int QByteArray::indexOf(char c, int from) const { int n = d->size; if (from < 0) from = qMax(from + n, 0); for (int i = from; i < n; ++i) if (d->data()[i] == c) return i; return -1; }
int QByteArray::lastIndexOf(char c, int from) const { int n = d->size; if (from < 0) from += n; else if (from > n) from = n - 1; for (int i = from; i >= 0 && i < n; --i) if (d->data()[i] == c) return i; return -1; }
bool QByteArray::startsWith(const char *s) const { int n = (int)strlen(s); return n <= d->size && memcmp(d->data(), s, n) == 0; }
bool QByteArray::startsWith(char c) const { return d->size && d->data()[0] == c; }
bool QByteArray::startsWith(const QByteArray &s) const { return s.size() <= d->size && memcmp(d->data(), s.constData(), s.size()) == 0; }
bool QByteArray::endsWith(char c) const { return d->size && d->data()[d->size - 1] == c; }
bool QByteArray::endsWith(const QByteArray &s) const { return s.size() <= d->size && memcmp(d->data() + d->size - s.size(), s.constData(), s.size()) == 0; }
bool QByteArray::endsWith(const char *s) const { return endsWith(QByteArray(s)); }
QByteArray QByteArray::left(int n) const { if (n >= d->size) return *this; if (n < 0) n = 0; return QByteArray(d->data(), n); }
QByteArray QByteArray::right(int n) const { if (n >= d->size) return *this; if (n < 0) n = 0; return QByteArray(d->data() + d->size - n, n); }
QByteArray QByteArray::mid(int pos, int len) const {
    switch (QtPrivate::QContainerImplHelper::mid(size(), &pos, &len)) {
    case QtPrivate::QContainerImplHelper::Null: return QByteArray();
    case QtPrivate::QContainerImplHelper::Empty: return QByteArray("", 0);
    case QtPrivate::QContainerImplHelper::Full: return *this;
    case QtPrivate::QContainerImplHelper::Subset: return QByteArray(d->data() + pos, len);
    }
    return QByteArray();
}
static bool aspace(uchar c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
QByteArray QByteArray::trimmed_helper(const QByteArray &a) { int b = 0, e = a.size(); while (b < e && aspace(a.at(e - 1))) --e; while (b < e && aspace(a.at(b))) ++b; return QByteArray(a.constData() + b, e - b); }
QByteArray QByteArray::trimmed_helper(QByteArray &a) { return trimmed_helper(const_cast<const QByteArray &>(a)); }
QByteArray QByteArray::number(int n, int base) { return QString::number(n, base).toLatin1(); }
char *qstrdup(const char *s) { size_t n = strlen(s) + 1; char *p = new char[n]; memcpy(p, s, n); return p; }
int qstrcmp(const char *a, const char *b) { return (a && b) ? strcmp(a, b) : (a ? 1 : (b ? -1 : 0)); }
int qstrcmp(const QByteArray &a, const QByteArray &b) { return strcmp(a.constData(), b.constData()); }
int qstrcmp(const QByteArray &a, const char *b) { return strcmp(a.constData(), b); }
int qstrnicmp(const char *a, const char *b, uint n) { for (uint i = 0; i < n; ++i) { uint x = m_lower((uchar)a[i]), y = m_lower((uchar)b[i]); if (x != y) return (int)x - (int)y; if (!x) break; } return 0; }
void qBadAlloc() { sym_fail("bad allocation"); }
