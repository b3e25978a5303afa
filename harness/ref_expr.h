// Independent evaluator of preprocessor expressions: tokenizer and recursive descent over the documented precedence.
#pragma once
#include "ref_lines.h"
struct RefExpr {
    QByteArray s; int p; bool err, open; bool (*defined)(const QByteArray &), (*exists)(const QByteArray &);   // open: value not specified (shift out of range, INT_MIN / -1)
    int tok; uint num; QByteArray str;
    enum { END, NUM, STR, OP, BAD };
    char op[3];
    RefExpr(const QByteArray &t) : s(t), p(0), err(false), open(false), defined(nullptr), exists(nullptr), tok(END), num(0) { next(); }
    char ch(int i) const { return p + i < s.size() ? s.at(p + i) : '\0'; }
    void setOp(char a, char b) { tok = OP; op[0] = a; op[1] = b; op[2] = 0; p += b ? 2 : 1; }
    static char up(char c) { return c >= 'a' && c <= 'z' ? char(c - 32) : c; }
    bool word(const char *w) { for (int i = 0; w[i]; ++i) if (up(ch(i)) != w[i]) return false; return true; }
    void call(int n, bool (*f)(const QByteArray &))
    {
        p += n; while (ch(0) == ' ' || ch(0) == '\t') ++p;
        if (ch(0) != '(') { tok = BAD; return; }
        ++p; int st = p; bool ex = f == exists && f; if (ex) { while (ch(0) == ' ' || ch(0) == '\t') ++p; if (ch(0) == '"') { ++p; while (p < s.size() && s.at(p) != '"') ++p; } }
        while (p < s.size() && s.at(p) != ')') ++p;
        if (p >= s.size() || (p == st && !ex) || !f) { tok = BAD; return; }
        QByteArray n2 = refTrim(s.mid(st, p - st)); ++p;
        if (n2.startsWith('"')) n2.remove(0, 1);
        if (n2.endsWith('"')) n2.chop(1);
        tok = NUM; num = f(n2) ? 1 : 0;
    }
    void next()
    {
        while (p < s.size() && (s.at(p) == ' ' || s.at(p) == '\t')) ++p;
        if (p >= s.size()) { tok = END; return; }
        char c = s.at(p);
        if (c >= '0' && c <= '9') { num = 0; while (p < s.size() && s.at(p) >= '0' && s.at(p) <= '9') { num = num * 10 + (uint(uchar(s.at(p))) - '0'); ++p; } tok = NUM; return; }
        if (c == '"') {
            ++p; str = QByteArray(); 
            for (;;) { if (p >= s.size()) { tok = BAD; return; } char d = s.at(p++); if (d != '"') { str += d; continue; } if (ch(0) == '"') { str += '"'; ++p; continue; } break; }
            tok = STR; return;
        }
        switch (c) {
        case '&': setOp('&', ch(1) == '&' ? '&' : 0); return;
        case '|': setOp('|', ch(1) == '|' ? '|' : 0); return;
        case '!': setOp('!', ch(1) == '=' ? '=' : 0); return;
        case '=': if (ch(1) != '=') { tok = BAD; return; } setOp('=', '='); return;
        case '<': setOp('<', ch(1) == '=' ? '=' : ch(1) == '<' ? '<' : 0); return;
        case '>': setOp('>', ch(1) == '=' ? '=' : ch(1) == '>' ? '>' : 0); return;
        case '+': case '-': case '*': case '/': case '%': case '~': case '(': case ')': setOp(c, 0); return;
        }
        if (word("DEFINED")) { call(7, defined); return; }
        if (word("EXIST")) { call(5, exists); return; }
        tok = BAD;
    }
    bool is(const char *o) const { return tok == OP && op[0] == o[0] && op[1] == o[1]; }
    bool take(const char *o) { if (!is(o)) return false; next(); return true; }
    uint primary()
    {
        if (tok == NUM) { uint v = num; next(); return v; }
        if (take("(")) { uint v = term0(); if (!take(")")) err = true; return v; }
        err = true; return 0;
    }
    uint unary()
    {
        if (take("-")) return 0u - primary();
        if (take("~")) return ~primary();
        if (take("!")) return primary() == 0;
        return primary();
    }
    uint mul()
    {
        uint v = unary();
        while (!err) {
            if (take("*")) v = v * unary();
            else if (is("/") || is("%")) {
                bool d = op[0] == '/'; next(); uint w = unary(); if (err) break;
                if (w == 0) { err = true; break; }
                if (v == 0x80000000u && w == 0xffffffffu) { open = true; v = 0; break; }
                v = d ? uint(int(v) / int(w)) : uint(int(v) % int(w));
            } else break;
        }
        return v;
    }
    uint add() { uint v = mul(); while (!err) { if (take("+")) v = v + mul(); else if (take("-")) v = v - mul(); else break; } return v; }
    uint shift()
    {
        uint v = add();
        while (!err) {
            if (!is("<<") && !is(">>")) break;
            bool l = op[0] == '<'; next(); uint w = add(); if (err) break;
            if (w > 31) { open = true; w = 0; }
            v = l ? v << w : uint(int(v) >> w);
        }
        return v;
    }
    uint rel()
    {
        uint v = shift();
        while (!err) {
            if (take("==")) v = v == shift();
            else if (take("!=")) v = v != shift();
            else if (take("<")) { int a = int(v); v = a < int(shift()); }
            else if (take(">")) { int a = int(v); v = a > int(shift()); }
            else if (take("<=")) { int a = int(v); v = a <= int(shift()); }
            else if (take(">=")) { int a = int(v); v = a >= int(shift()); }
            else break;
        }
        return v;
    }
    uint term1()
    {
        if (tok != STR) return rel();
        QByteArray a = str; next(); bool eq = is("==");
        if (!eq && !is("!=")) { err = true; return 0; }
        next(); if (tok != STR) { err = true; return 0; }
        bool r = rt_eqb(a, str); next(); return r == eq;
    }
    uint term0()
    {
        uint v = term1();
        while (!err) {
            if (take("&&")) { uint w = term1(); v = (v != 0) & (w != 0); }
            else if (take("||")) { uint w = term1(); v = (v != 0) | (w != 0); }
            else if (take("&")) v = v & term1();
            else if (take("|")) v = v | term1();
            else break;
        }
        return v;
    }
    uint value() { uint v = term0(); if (tok != END) err = true; return v; }
};
