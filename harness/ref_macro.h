// Reference: macro expansion.
#pragma once
#include "mk.h"
struct RefTable { QList<QByteArray> names, values; };
static const char MAGIC = 1;
static inline bool refSubst(const QByteArray &t, int from, int *end, QByteArray *a, QByteArray *b)
{   // statement a=b up to the first ) that is not escaped; ^ takes the next character literally
    bool eq = false; int i = from;
    for (; i < t.size(); ++i) {
        char c = t.at(i);
        if (c == '^' && i + 1 < t.size()) { char d = t.at(i + 1); sym_assume((d != '=') & (d != '^')); (eq ? b : a)->append(d); ++i; sym_reach("escaped"); continue; }
        if (c == ')') break;
        if (c == '=') { sym_assume(!eq); eq = true; continue; }
        (eq ? b : a)->append(c);
    }
    *end = i;
    if (i >= t.size() || !eq) return false;
    sym_assume(!a->isEmpty());
    return true;
}
static inline QByteArray refReplace(const QByteArray &v, const QByteArray &a, const QByteArray &b)
{
    QByteArray o; int i = 0, n = 0;
    while (i < v.size()) {
        if (i + a.size() <= v.size() && rt_eqb(v.mid(i, a.size()), a)) { o += b; i += a.size(); ++n; } else o += v.at(i++);
    }
    if (n) sym_reach("replaced"); if (n > 1) sym_reach("twice");
    return o;
}
static inline bool refExpand(const RefTable &T, const QByteArray &t, bool dep, const QList<QByteArray> &stack, QByteArray *out);
static inline bool refMacro(const RefTable &T, const QByteArray &name, bool dep, const QList<QByteArray> &stack, QByteArray *out)
{
    for (int i = 0; i < stack.size(); ++i) if (rt_eqb(stack.at(i), name)) return false;
    QList<QByteArray> s = stack; s.append(name);
    if (s.size() > 2) sym_reach("deep");
    for (int i = 0; i < T.names.size(); ++i) if (rt_eqb(T.names.at(i), name)) return refExpand(T, T.values.at(i), dep, s, out);
    return true;
}
static inline bool refExpand(const RefTable &T, const QByteArray &t, bool dep, const QList<QByteArray> &stack, QByteArray *out)
{
    for (int i = 0; i < t.size(); ++i) {
        char c = t.at(i);
        if (c != '$' || i + 1 == t.size()) { *out += c; continue; }
        c = t.at(++i);
        if (c == '$') {
            if (dep && i + 1 < t.size() && t.at(i + 1) == '@') { *out += MAGIC; *out += '@'; ++i; sym_reach("file"); }
            else if (dep && i + 2 < t.size() && t.at(i + 1) == '(' && t.at(i + 2) == '@') { *out += MAGIC; *out += "(@"; i += 2; }
            else *out += '$';
        } else if ((c == '<') | (c == '*') | (c == '@') | (c == '?')) { *out += MAGIC; *out += c; sym_reach("file"); }
        else if (c == '(') {
            int e = i + 1, colon = -1;
            for (; e < t.size() && t.at(e) != ')'; ++e) if (colon < 0 && t.at(e) == ':') colon = e;
            if (e == t.size()) return false;
            QByteArray name = t.mid(i + 1, (colon < 0 ? e : colon) - i - 1), v;
            if (name.isEmpty()) return false;
            char f = name.at(0);
            if ((f == '<') | (f == '*') | (f == '@') | (f == '?')) { *out += MAGIC; *out += t.mid(i, e - i + 1); i = e; continue; }
            if (!refMacro(T, name, dep, stack, &v)) return false;
            if (colon >= 0) { QByteArray a, b; if (!refSubst(t, colon + 1, &e, &a, &b)) return false; v = refReplace(v, a, b); }
            *out += v; i = e;
        } else if (isalnum((uchar)c)) { if (!refMacro(T, QByteArray(1, c), dep, stack, out)) return false; }
        else return false;
    }
    return true;
}
static inline bool sameExpanded(const QString &a, const QByteArray &b)
{
    if (a.size() != b.size()) return false;
    int d = 0; for (int i = 0; i < b.size(); ++i) d |= a.at(i).unicode() ^ (b.at(i) == MAGIC ? 0xfeff : (uchar)b.at(i));
    return d == 0;
}
