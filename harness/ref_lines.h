// Reference: how the characters of a makefile form physical and logical lines.
#pragma once
#include "rt.h"
struct RefLine { QByteArray text; int cont; RefLine() : cont(0) {} }; // cont: 0 none, 1 backslash, 2 caret
// cuts the file into lines, drops comment lines, classifies the line ends. "\r\n" ends a line like "\n".
static inline QList<RefLine> refPhysical(const QByteArray &f)
{
    QList<RefLine> out; int n = f.size(), st = 0;
    while (st < n) {
        int e = st; while (e < n && f.at(e) != '\n') ++e;
        int te = e; if (e < n && te > st && f.at(te - 1) == '\r') --te;
        if (!(te > st && f.at(st) == '#')) {
            RefLine l; int len = te - st; const char *p = f.constData() + st;
            if (len >= 1 && p[len - 1] == '\\') {
                if (len >= 2 && p[len - 2] == '^') { l.text = QByteArray(p, len - 2) + '\\'; }
                else if (len >= 2 && p[len - 2] == '\\') l.text = QByteArray(p, len);
                else { l.text = QByteArray(p, len - 1); l.cont = 1; }
            } else if (len >= 1 && p[len - 1] == '^') { l.text = QByteArray(p, len - 1); l.cont = 2; }
            else l.text = QByteArray(p, len);
            out.append(l);
        }
        st = e + 1;
    }
    return out;
}
static inline bool refBlank(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static inline QByteArray refLTrim(const QByteArray &s) { int i = 0; while (i < s.size() && refBlank(s.at(i))) ++i; return s.mid(i); }
static inline QByteArray refTrim(const QByteArray &s) { int i = 0, e = s.size(); while (i < e && refBlank(s.at(i))) ++i; while (e > i && refBlank(s.at(e - 1))) --e; return s.mid(i, e - i); }
// joins continued lines the way ordinary (non-directive) makefile text is joined
static inline QList<QByteArray> refJoined(const QList<RefLine> &l)
{
    QList<QByteArray> out; QByteArray cur; int cont = 0;
    for (int i = 0; i < l.size(); ++i) {
        if (!cont) cur = l.at(i).text; else { cur += cont == 1 ? ' ' : '\n'; cur += refLTrim(l.at(i).text); }
        cont = l.at(i).cont; if (!cont) out.append(cur);
    }
    if (cont) { cur += cont == 1 ? ' ' : '\n'; out.append(cur); }
    return out;
}
static inline bool sameText(const QString &a, const QByteArray &b)
{
    if (a.size() != b.size()) return false;
    int d = 0; for (int i = 0; i < b.size(); ++i) d |= a.at(i).unicode() ^ (uchar)b.at(i);
    return d == 0;
}
