// Model of QRegExp for the pattern language used in jom: literals, escapes \s \S \w \W \d \., sets [..], groups (capturing or not),
// alternation, * + ? {n,m}, leading ^, $ (as a position that matches the end of the text). Whether a match exists is computed without branching on the text (position automaton);
// captures are found by greedy backtracking.
#include <QtCore/QtCore>
#include <stdlib.h>
#include <string.h>
#include "sym.h"
#include "qt_model.h"

struct RxClass { int n; ushort lo[40], hi[40]; bool neg, any, eol; };
enum { R_EMPTY, R_CHAR, R_CAT, R_ALT, R_STAR, R_OPT, R_GROUP };
struct RxNode { int k; int a, b; int cls, pos; int cap; };
enum { MAXPOS = 224, MAXNODE = 700 };
struct QRegExpPrivate {
    QString pattern; Qt::CaseSensitivity cs; bool compiled; bool anchored, hasEol;
    RxNode nodes[MAXNODE]; int nn; RxClass *cls; int ncls;
    int npos; int posCls[MAXPOS]; bool nullable; bool first[MAXPOS], last[MAXPOS];
    uchar *npred; uchar (*pred)[MAXPOS]; 
    int ncap; int root;
    QString str; int idx; bool exact; bool resolved; int cs_[16], ce_[16];
    const ushort *p; int ip;
};
typedef QRegExpPrivate RP;

static int node(RP *r, int k, int a = -1, int b = -1) { if (r->nn >= MAXNODE) sym_internal_error("regexp too large"); RxNode &n = r->nodes[r->nn]; n.k = k; n.a = a; n.b = b; n.cls = -1; n.pos = -1; n.cap = 0; return r->nn++; }
static void addRange(RxClass &c, ushort lo, ushort hi) { if (c.n >= 40) sym_internal_error("regexp class"); c.lo[c.n] = lo; c.hi[c.n] = hi; c.n++; }
static void addNamed(RxClass &c, ushort ch) {
    switch (ch) {
    case 's': addRange(c, 9, 13); addRange(c, 32, 32); addRange(c, 0x85, 0x85); addRange(c, 0xa0, 0xa0); break;
    case 'd': addRange(c, '0', '9'); break;
    case 'w': addRange(c, 'a', 'z'); addRange(c, 'A', 'Z'); addRange(c, '0', '9'); addRange(c, '_', '_'); addRange(c, 0xaa, 0xaa); addRange(c, 0xb2, 0xb3); addRange(c, 0xb5, 0xb5); addRange(c, 0xb9, 0xba); addRange(c, 0xbc, 0xbe); addRange(c, 0xc0, 0xd6); addRange(c, 0xd8, 0xf6); addRange(c, 0xf8, 0x2ff); break;
    default: sym_internal_error("regexp class escape");
    }
}
static bool inClass(const RP *r, int ci, ushort c0) {
    const RxClass &c = r->cls[ci];
    if (c.any) return true;
    if (c.eol) return false;
    bool m = false;
    if (r->cs == Qt::CaseInsensitive) { ushort l = m_lower(c0), u = m_upper(c0); for (int i = 0; i < c.n; ++i) m |= ((l >= c.lo[i]) & (l <= c.hi[i])) | ((u >= c.lo[i]) & (u <= c.hi[i])); }
    else for (int i = 0; i < c.n; ++i) m |= (c0 >= c.lo[i]) & (c0 <= c.hi[i]);
    return m ^ c.neg;
}
static int parseAlt(RP *r, int n);
static int charNode(RP *r, const RxClass &c) { int x = node(r, R_CHAR); r->nodes[x].cls = r->ncls; r->cls[r->ncls++] = c; return x; }
static int copyNode(RP *r, int x) { if (x < 0) return -1; RxNode s = r->nodes[x]; int a = copyNode(r, s.a), b = copyNode(r, s.b); int y = node(r, s.k, a, b); r->nodes[y].cls = s.cls; r->nodes[y].cap = s.cap; return y; }
static int parseAtom(RP *r, int n) {
    ushort c = r->p[r->ip++]; RxClass k; memset(&k, 0, sizeof k);
    if (c == '(') {
        int cap = 0;
        if (r->ip + 1 < n && r->p[r->ip] == '?' && r->p[r->ip + 1] == ':') r->ip += 2; else cap = ++r->ncap;
        int a = parseAlt(r, n);
        if (r->ip >= n || r->p[r->ip] != ')') sym_internal_error("regexp group"); r->ip++;
        int g = node(r, R_GROUP, a); r->nodes[g].cap = cap; return g;
    }
    if (c == '[') {
        if (r->p[r->ip] == '^') { k.neg = true; r->ip++; }
        bool firstc = true;
        while (firstc || r->p[r->ip] != ']') {
            firstc = false; if (r->ip >= n) sym_internal_error("regexp set");
            ushort lo = r->p[r->ip++];
            if (lo == '\\') { ushort e = r->p[r->ip++]; if (e == 's' || e == 'd' || e == 'w') { addNamed(k, e); continue; } lo = e == 't' ? 9 : e == 'n' ? 10 : e == 'r' ? 13 : e; }
            ushort hi = lo;
            if (r->p[r->ip] == '-' && r->p[r->ip + 1] != ']') { r->ip++; hi = r->p[r->ip++]; }
            addRange(k, lo, hi);
        }
        r->ip++; return charNode(r, k);
    }
    if (c == '.') { k.any = true; return charNode(r, k); }
    if (c == '\\') {
        c = r->p[r->ip++];
        if (c == 's' || c == 'd' || c == 'w') { addNamed(k, c); return charNode(r, k); }
        if (c == 'S' || c == 'D' || c == 'W') { addNamed(k, c + 32); k.neg = true; return charNode(r, k); }
        if (c == 't') c = 9; else if (c == 'n') c = 10; else if (c == 'r') c = 13;
        else if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')) sym_internal_error("regexp escape");
        addRange(k, c, c); return charNode(r, k);
    }
    if (c == '$') { k.eol = true; r->hasEol = true; return charNode(r, k); }
    if (c == '^' || c == '*' || c == '+' || c == '?') sym_internal_error("regexp anchor");
    addRange(k, c, c); return charNode(r, k);
}
static int parseRep(RP *r, int n) {
    int a = parseAtom(r, n);
    while (r->ip < n) {
        ushort c = r->p[r->ip];
        if (c == '*') { r->ip++; a = node(r, R_STAR, a); }
        else if (c == '+') { r->ip++; int b = copyNode(r, a); int s = node(r, R_STAR, b); a = node(r, R_CAT, a, s); }
        else if (c == '?') { r->ip++; a = node(r, R_OPT, a); }
        else if (c == '{') {
            int lo = 0, hi = 0; r->ip++;
            while (r->p[r->ip] >= '0' && r->p[r->ip] <= '9') lo = lo * 10 + r->p[r->ip++] - '0';
            if (r->p[r->ip] == ',') { r->ip++; while (r->p[r->ip] >= '0' && r->p[r->ip] <= '9') hi = hi * 10 + r->p[r->ip++] - '0'; } else hi = lo;
            if (r->p[r->ip] != '}' || lo < 1 || hi < lo) sym_internal_error("regexp repetition"); r->ip++;
            int t = a; for (int i = 1; i < lo; ++i) { int cpy = copyNode(r, a); t = node(r, R_CAT, t, cpy); }
            int o = -1; for (int i = lo; i < hi; ++i) { int cpy = copyNode(r, a); if (o >= 0) cpy = node(r, R_CAT, cpy, o); o = node(r, R_OPT, cpy); }
            a = o >= 0 ? node(r, R_CAT, t, o) : t;
        } else break;
    }
    return a;
}
static int parseCat(RP *r, int n) {
    int a = -1;
    while (r->ip < n && r->p[r->ip] != '|' && r->p[r->ip] != ')') { int b = parseRep(r, n); a = a < 0 ? b : node(r, R_CAT, a, b); }
    return a < 0 ? node(r, R_EMPTY) : a;
}
static int parseAlt(RP *r, int n) { int a = parseCat(r, n); while (r->ip < n && r->p[r->ip] == '|') { r->ip++; int b = parseCat(r, n); a = node(r, R_ALT, a, b); } return a; }

struct Sets { bool nullable; uchar *f, *l; }; // first/last as byte maps
static Sets build(RP *r, int x) {
    Sets s; s.f = (uchar *)calloc(MAXPOS, 1); s.l = (uchar *)calloc(MAXPOS, 1); s.nullable = false;
    RxNode &n = r->nodes[x];
    switch (n.k) {
    case R_EMPTY: s.nullable = true; break;
    case R_CHAR: if (r->npos >= MAXPOS) sym_internal_error("regexp positions"); n.pos = r->npos; r->posCls[r->npos] = n.cls; s.f[r->npos] = s.l[r->npos] = 1; r->npos++; break;
    case R_GROUP: { free(s.f); free(s.l); return build(r, n.a); }
    case R_CAT: { Sets a = build(r, n.a), b = build(r, n.b);
        for (int q = 0; q < r->npos; ++q) if (b.f[q]) for (int p = 0; p < r->npos; ++p) if (a.l[p]) r->pred[q][p] = 1;
        for (int q = 0; q < r->npos; ++q) { s.f[q] = a.f[q] | (a.nullable ? b.f[q] : 0); s.l[q] = b.l[q] | (b.nullable ? a.l[q] : 0); }
        s.nullable = a.nullable && b.nullable; free(a.f); free(a.l); free(b.f); free(b.l); break; }
    case R_ALT: { Sets a = build(r, n.a), b = build(r, n.b); for (int q = 0; q < r->npos; ++q) { s.f[q] = a.f[q] | b.f[q]; s.l[q] = a.l[q] | b.l[q]; } s.nullable = a.nullable || b.nullable; free(a.f); free(a.l); free(b.f); free(b.l); break; }
    case R_STAR: case R_OPT: { Sets a = build(r, n.a);
        if (n.k == R_STAR) for (int q = 0; q < r->npos; ++q) if (a.f[q]) for (int p = 0; p < r->npos; ++p) if (a.l[p]) r->pred[q][p] = 1;
        free(s.f); free(s.l); a.nullable = true; return a; }
    }
    return s;
}
static void compile(RP *r) {
    if (r->compiled) return;
    r->compiled = true; r->nn = 0; r->ncls = 0; r->ncap = 0; r->npos = 0; r->ip = 0; r->hasEol = false;
    r->cls = (RxClass *)malloc(sizeof(RxClass) * 256);
    r->pred = (uchar(*)[MAXPOS])calloc(MAXPOS, MAXPOS);
    r->p = reinterpret_cast<const ushort *>(r->pattern.constData()); int n = r->pattern.size();
    r->anchored = n && r->p[0] == '^'; if (r->anchored) r->ip = 1;
    r->root = parseAlt(r, n); if (r->ip != n) sym_internal_error("regexp syntax"); if (r->anchored && r->nodes[r->root].k == R_ALT) sym_internal_error("regexp anchor");
    Sets s = build(r, r->root); r->nullable = s.nullable;
    for (int i = 0; i < r->npos; ++i) { r->first[i] = s.f[i]; r->last[i] = s.l[i]; }
    // compress the predecessor lists
    r->npred = (uchar *)calloc(MAXPOS, 1);
    for (int q = 0; q < r->npos; ++q) { uchar t[MAXPOS]; int k = 0; for (int p = 0; p < r->npos; ++p) if (r->pred[q][p]) t[k++] = p; memcpy(r->pred[q], t, k); r->npred[q] = k; }
    free(s.f); free(s.l);
}
// does the pattern match at start (whole text if exact)?
static bool nfa(RP *r, const ushort *p, int n, int start, bool exact) {
    bool acc = r->nullable && (!exact || start == n);
    if (r->npos == 1 && !exact && !r->nullable && !r->hasEol) return start < n && inClass(r, r->posCls[0], p[start]);
    uchar cur[MAXPOS], nxt[MAXPOS]; memset(cur, 0, r->npos); int clsv[256];
    int e = n + (r->hasEol ? 1 : 0);
    for (int i = start; i < e; ++i) {
        for (int k = 0; k < r->ncls; ++k) clsv[k] = -1;
        bool alive = false, al = false;
        for (int q = 0; q < r->npos; ++q) {
            unsigned b = i == start ? r->first[q] : 0;
            if (i != start) for (int k = 0; k < r->npred[q]; ++k) { uchar v = cur[r->pred[q][k]]; if (sym_is_const(v) && !v) continue; b |= v; }
            if (sym_is_const(b) && !b) { nxt[q] = 0; continue; }
            int ci = r->posCls[q]; if (sym_is_const(clsv[ci]) && clsv[ci] == -1) clsv[ci] = i < n ? inClass(r, ci, p[i]) : r->cls[ci].eol;
            b &= (unsigned)clsv[ci]; nxt[q] = b;
            if (sym_is_const(b) && !b) continue;
            alive = true; if (r->last[q]) al |= b;
        }
        if (!alive) return exact ? false : acc;
        if (exact) { if (i == n - 1) acc = al; else if (i == n) acc |= al; } else acc |= al;
        memcpy(cur, nxt, r->npos);
    }
    return acc;
}
// greedy backtracking for captures
struct Cont { int nodeIdx; int kind; int aux; Cont *next; };
static bool bt(RP *r, int x, const ushort *p, int n, int i, Cont *k);
static bool cont(RP *r, const ushort *p, int n, int i, Cont *k) {
    if (!k) { if (r->exact && i != n) return false; r->ce_[0] = i; return true; }
    if (k->kind == 0) return bt(r, k->nodeIdx, p, n, i, k->next);
    if (k->kind == 1) { int os = r->cs_[k->nodeIdx], oe = r->ce_[k->nodeIdx]; r->cs_[k->nodeIdx] = k->aux; r->ce_[k->nodeIdx] = i; if (cont(r, p, n, i, k->next)) return true; r->cs_[k->nodeIdx] = os; r->ce_[k->nodeIdx] = oe; return false; }
    // star iteration
    if (i == k->aux) return false;
    return bt(r, k->nodeIdx, p, n, i, k->next);
}
static bool bt(RP *r, int x, const ushort *p, int n, int i, Cont *k) {
    RxNode &N = r->nodes[x];
    switch (N.k) {
    case R_EMPTY: return cont(r, p, n, i, k);
    case R_CHAR: if (r->cls[N.cls].eol) return i == n && cont(r, p, n, i, k);
        if (i >= n || !inClass(r, N.cls, p[i])) return false; return cont(r, p, n, i + 1, k);
    case R_CAT: { Cont c = { N.b, 0, 0, k }; return bt(r, N.a, p, n, i, &c); }
    case R_ALT: return bt(r, N.a, p, n, i, k) || bt(r, N.b, p, n, i, k);
    case R_OPT: return bt(r, N.a, p, n, i, k) || cont(r, p, n, i, k);
    case R_STAR: { Cont c = { x, 2, i, k }; return bt(r, N.a, p, n, i, &c) || cont(r, p, n, i, k); }
    case R_GROUP: if (!N.cap) return bt(r, N.a, p, n, i, k); { Cont c = { N.cap, 1, i, k }; return bt(r, N.a, p, n, i, &c); }
    }
    return false;
}
static void resolve(RP *r) {
    if (r->resolved) return; r->resolved = true;
    r->idx = (int)sym_concretize((uint)r->idx);
    for (int i = 0; i < 16; ++i) r->cs_[i] = r->ce_[i] = -1;
    if (r->idx < 0) return;
    r->cs_[0] = r->idx;
    if (!bt(r, r->root, reinterpret_cast<const ushort *>(r->str.constData()), r->str.size(), r->idx, nullptr)) sym_internal_error("regexp: automaton and matcher disagree");
}
static RP *newRP() { RP *r = new RP; r->cs = Qt::CaseSensitive; r->compiled = false; r->anchored = false; r->nn = r->ncls = r->npos = r->ncap = 0; r->cls = nullptr; r->npred = nullptr; r->pred = nullptr; r->idx = -1; r->exact = false; r->resolved = false; return r; }
static void drop(RP *r) { free(r->cls); free(r->npred); free(r->pred); r->cls = nullptr; r->npred = nullptr; r->pred = nullptr; r->compiled = false; }
QRegExp::QRegExp() { priv = newRP(); }
QRegExp::QRegExp(const QString &p, Qt::CaseSensitivity cs, PatternSyntax s) { if (s != RegExp && s != RegExp2) sym_internal_error("regexp syntax kind"); priv = newRP(); priv->pattern = p; priv->cs = cs; }
QRegExp::QRegExp(const QRegExp &o) { priv = newRP(); priv->pattern = o.priv->pattern; priv->cs = o.priv->cs; }
QRegExp::~QRegExp() { drop(priv); delete priv; }
QRegExp &QRegExp::operator=(const QRegExp &o) { drop(priv); priv->pattern = o.priv->pattern; priv->cs = o.priv->cs; return *this; }
bool QRegExp::isEmpty() const { return priv->pattern.isEmpty(); }
QString QRegExp::pattern() const { return priv->pattern; }
void QRegExp::setPattern(const QString &p) { drop(priv); priv->pattern = p; }
void QRegExp::setCaseSensitivity(Qt::CaseSensitivity cs) { drop(priv); priv->cs = cs; }
bool QRegExp::exactMatch(const QString &s) const {
    compile(priv); priv->str = s; priv->exact = true; priv->resolved = false;
    bool m = nfa(priv, reinterpret_cast<const ushort *>(s.constData()), s.size(), 0, true);
    priv->idx = m_seli(m, 0, -1); return m;
}
int QRegExp::indexIn(const QString &s, int from, CaretMode) const {
    compile(priv); priv->str = s; priv->exact = false; priv->resolved = false;
    const ushort *p = reinterpret_cast<const ushort *>(s.constData()); int n = s.size(); int r = -1;
    if (from < 0) from += n;
    int lim = priv->anchored ? 0 : n;
    for (int i = lim; i >= from; --i) { bool m = nfa(priv, p, n, i, false); r = m_seli(m, i, r); }
    priv->idx = r; return r;
}
QString QRegExp::cap(int k) const { resolve(priv); if (priv->idx < 0 || k > priv->ncap) return QString(); if (priv->cs_[k] < 0) return QString(QLatin1String("")); return priv->str.mid(priv->cs_[k], priv->ce_[k] - priv->cs_[k]); }
QString QRegExp::cap(int k) { return static_cast<const QRegExp *>(this)->cap(k); }
int QRegExp::pos(int k) const { resolve(priv); return priv->idx < 0 ? -1 : priv->cs_[k]; }
int QRegExp::pos(int k) { return static_cast<const QRegExp *>(this)->pos(k); }
int QRegExp::matchedLength() const { resolve(priv); return priv->idx < 0 ? -1 : priv->ce_[0] - priv->cs_[0]; }
int QRegExp::captureCount() const { compile(priv); return priv->ncap; }
static QStringList splitRx(const QString &s, const QRegExp &rx, bool skip) {
    QStringList l; int st = 0; const ushort *p = reinterpret_cast<const ushort *>(s.constData()); int n = s.size();
    struct X { QRegExpPrivate *priv; }; RP *r = reinterpret_cast<const X *>(&rx)->priv; compile(r);
    if (r->npos != 1 || r->nullable) sym_internal_error("split pattern");
    for (int i = 0; i < n; ++i) if (inClass(r, r->posCls[0], p[i])) { if (st != i || !skip) l.append(s.mid(st, i - st)); st = i + 1; }
    if (st != n || !skip) l.append(s.mid(st)); return l;
}
QStringList QString::split(const QRegExp &rx, SplitBehavior b) const { return splitRx(*this, rx, b == SkipEmptyParts); }
QStringList QString::split(const QRegExp &rx, Qt::SplitBehavior b) const { return splitRx(*this, rx, b & Qt::SkipEmptyParts); }
QString &QString::replace(const QRegExp &rx, const QString &after)
{
    QString r; int i = 0, n = size();
    if (after.contains(QLatin1Char('\\'))) sym_internal_error("replace(QRegExp) with back references");
    while (i <= n) {
        int k = rx.indexIn(*this, i); k = (int)sym_concretize((uint)k); if (k < 0) break;
        int len = rx.matchedLength(); r.append(mid(i, k - i)); r.append(after);
        if (len == 0) { if (k < n) r.append(at(k)); i = k + 1; } else i = k + len;
    }
    if (i < n) r.append(mid(i));
    return *this = r;
}
QStringList QRegExp::capturedTexts() const { QStringList l; for (int i = 0; i <= captureCount(); ++i) l.append(cap(i)); return l; }
QStringList QRegExp::capturedTexts() { return static_cast<const QRegExp *>(this)->capturedTexts(); }
bool QRegExp::isValid() const { compile(priv); return true; }
Qt::CaseSensitivity QRegExp::caseSensitivity() const { return priv->cs; }
bool QRegExp::isMinimal() const { return false; }
void QRegExp::setMinimal(bool m) { if (m) sym_internal_error("minimal regexp"); }
QRegExp::PatternSyntax QRegExp::patternSyntax() const { return RegExp; }
void QRegExp::setPatternSyntax(PatternSyntax s) { if (s != RegExp && s != RegExp2) sym_internal_error("regexp syntax kind"); }
bool QRegExp::operator==(const QRegExp &o) const { return priv->pattern == o.priv->pattern && priv->cs == o.priv->cs; }
QString QRegExp::escape(const QString &s) { QString r; for (int i = 0; i < s.size(); ++i) { ushort c = s.at(i).unicode(); if (c == '$' || c == '(' || c == ')' || c == '*' || c == '+' || c == '.' || c == '?' || c == '[' || c == '\\' || c == ']' || c == '^' || c == '{' || c == '|' || c == '}') r.append(QLatin1Char('\\')); r.append(QChar(c)); } return r; }
int QRegExp::lastIndexIn(const QString &s, int from, CaretMode) const {
    compile(priv); priv->str = s; priv->exact = false; priv->resolved = false;
    const ushort *p = reinterpret_cast<const ushort *>(s.constData()); int n = s.size(); int r = -1;
    if (from < 0) from += n;
    if (from < 0 || from > n) { priv->idx = -1; return -1; }
    int lim = priv->anchored ? 0 : from;
    for (int i = 0; i <= lim; ++i) { bool m = nfa(priv, p, n, i, false); r = m_seli(m, i, r); }
    priv->idx = r; return r;
}
int QString::indexOf(const QRegExp &rx, int from) const { return rx.indexIn(*this, from); }
bool QString_contains(const QString &s, const QRegExp &rx) { return rx.indexIn(s) != -1; }
