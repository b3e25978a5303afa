// @entry: E_chars time=250 ttime=1500 reach=value,error,string
// @entry: E_ops time=250 ttime=1500 reach=value,error
// @entry: E_numbers time=150 ttime=600 reach=value,error
// @entry: E_deep time=60 ttime=300 reach=value
// @entry: E_strings time=100 ttime=600 reach=equal,different,error
// @entry: E_defined time=100 ttime=600 reach=value,error
// @entry: E_exist time=60 ttime=600 reach=value
// @entry: E_bad time=60 ttime=600 reach=error
// @entry: E_shell time=60 ttime=300 reach=value
// @bound: every text of up to 5 (thorough 6) characters over the operator characters, digits, quote and blank; all operand values of up to 10 digits (not above 2147483647; * / %: 4 digits or -2147483648 by 1 digit) for every operator, all one-digit operands for every chain of two operators and of three operators out of five levels (thorough: out of all 17)
// @bound: string comparison of texts of up to 3 (4) characters; defined()/exist() with every argument of up to 4 (6) characters over { X Y blank " }
// @outside: literals above 2147483647; the value (not the absence of a crash) of shifts by less than 0 or more than 31 and of -2147483648 / -1
#include "mk.h"
#include "ref_expr.h"
#include <stdlib.h>
static QByteArray g_cmd; static int g_code;
extern "C" int h_system(const char *c) { g_cmd = QByteArray(c); return g_code; }
static bool eval(Preprocessor &pp, const QByteArray &t, int *v) { try { *v = pp.evaluateExpression(QString::fromLatin1(t)); } catch (Exception &) { return false; } return true; }
static void compare(Preprocessor &pp, const QByteArray &t, RefExpr &r)
{
    uint want = r.value(); int v = -1; bool ok = eval(pp, t, &v);
    if (r.err) { sym_reach("error"); sym_assert(!ok, "a malformed expression is rejected"); return; }
    sym_assert(ok, "a well-formed expression is accepted"); sym_reach("value");
    if (r.open) return;
    sym_observe_int("v", v); sym_assert(uint(v) == want, "value of the expression");
    sym_assert(eval(pp, "1+1", &v) && v == 2, "a later expression is not affected");
}
static QByteArray number(const char *n, int digits)
{
    QByteArray b; quint64 v = 0;
    for (int i = 0; i < digits; ++i) { char c = (char)rt_byte(n); sym_assume((c >= '0') & (c <= '9')); b += c; v = v * 10 + quint64(c - '0'); }
    sym_assume(v <= 2147483647u); return b;
}
extern "C" void E_chars()
{
    QByteArray t = rt_bytes("c", "1~-*/<=!&|()\" ", rt_choose("n", TIER == 2 ? 7 : 6));
    MacroTable mt; Preprocessor pp; pp.setMacroTable(&mt); RefExpr r(t); if (t.contains('"')) sym_reach("string"); compare(pp, t, r);
}
static const char *const ops[] = { "*", "/", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "&", "|" };
extern "C" void E_ops()
{
    static const char *const un[] = { "", "-", "~", "!" };
    QByteArray t; int n = 2 + rt_choose("n", 3); bool par = n == 3 && rt_bool("par");
    for (int i = 0; i < n; ++i) {
        if (i) { static const int rep[] = { 0, 2, 3, 4, 5, 7, 11, 13, 16 }; int o = n < 4 || TIER == 2 ? (int)rt_choose("op", 17) : rep[rt_choose("op", 5) + 3]; t += QByteArray(" ") + ops[o] + " "; }
        if (par && i == 1) t += "(";
        if (n == 2) t += un[rt_choose("un", 4)];
        t += number("d", 1);
    }
    if (par) t += ")";
    MacroTable mt; Preprocessor pp; pp.setMacroTable(&mt); RefExpr r(t); compare(pp, t, r);
}
extern "C" void E_numbers()
{
    static const int dg[] = { 10, 9, 2, 4 };
    bool na = rt_bool("na"), nb = rt_bool("nb"), mn = rt_bool("min"); int o = rt_choose("op", 17);
    QByteArray a = number("a", o < 3 ? 4 : 10), b = number("b", o < 3 ? 1 : dg[2 * rt_choose("db", 2)]);
    QByteArray t = QByteArray(na ? "(-" : "(") + (mn ? "2147483647" : a) + (mn ? " - 1)" : ")") + ops[o] + (nb ? "-" : "") + b;
    MacroTable mt; Preprocessor pp; pp.setMacroTable(&mt); RefExpr r(t); compare(pp, t, r);
}
// nesting beyond the initial stack of the parser
extern "C" void E_deep()
{
    static const int ds[] = { 1, 60, 124, 125, 126, 127, 128, 260 }; int d = ds[rt_choose("d", 8)]; char c = (char)rt_byte("c"); sym_assume((c >= '0') & (c <= '9'));
    QByteArray t; for (int i = 0; i < d; ++i) t += '('; t += c; for (int i = 0; i < d; ++i) t += ')'; t += "+1";
    MacroTable mt; Preprocessor pp; pp.setMacroTable(&mt); int v = -1;
    sym_assert(eval(pp, t, &v), "accepted"); sym_assert(v == c - '0' + 1, "value"); sym_reach("value");
}
extern "C" void E_strings()
{
    QByteArray a = rt_bytes("a", "a\" A", rt_choose("na", TIER == 2 ? 5 : 4)), b = rt_bytes("b", "a\" A", rt_choose("nb", TIER == 2 ? 5 : 4)); bool eq = rt_bool("eq"), conj = rt_bool("conj");
    QByteArray t = "\"" + a + "\"" + (eq ? "==" : "!=") + "\"" + b + "\""; if (conj) t += " && 1";
    MacroTable mt; Preprocessor pp; pp.setMacroTable(&mt); RefExpr r(t), r2(t); uint w = r2.value(); sym_reach(r2.err ? "error" : w == uint(eq) ? "equal" : "different"); compare(pp, t, r);
}
static bool isDef(const QByteArray &n) { return n == "X" || n == "XX"; }
static bool isFile(const QByteArray &n) { return n == "X" || n == "X Y" || n == "X (Y)"; }
static const char *const kw[2][3] = { { "DEFINED", "defined", "DefIned" }, { "EXIST", "exist", "Exist" } };
static void setup(MacroTable &mt) { mt.setMacroValue(R_("X"), R_("1")); mt.setMacroValue(R_("XX"), R_("")); mt.setMacroValue(R_("Z"), R_("1")); mt.undefineMacro(R_("Z")); }
extern "C" void E_defined()
{
    QByteArray t = QByteArray(kw[0][rt_choose("kw", 3)]) + (rt_bool("bl") ? " " : "") + "(" + rt_bytes("c", "XYZ \"()", rt_choose("n", TIER == 2 ? 7 : 5)) + ")"; if (rt_bool("neg")) t = "!" + t;
    if (rt_bool("more")) t += " && defined(X)";
    MacroTable mt; setup(mt); Preprocessor pp; pp.setMacroTable(&mt); RefExpr r(t); r.defined = isDef; r.p = 0; r.next(); compare(pp, t, r);
}
extern "C" void E_exist()
{
    QByteArray arg; if (rt_bool("paren")) arg = rt_bool("there") ? " \"X (Y)\" " : "\"X (X)\""; else { arg = rt_bytes("c", "XY ", rt_choose("n", TIER == 2 ? 5 : 3)); if (rt_bool("quoted")) arg = " \"" + refTrim(arg) + "\"  "; }
    QByteArray t = QByteArray(kw[1][rt_choose("kw", 3)]) + (rt_bool("bl") ? " " : "") + "(" + arg + ")"; 
    switch (rt_choose("form", 4)) { case 1: t = "!" + t; break; case 2: t += " && exist(X)"; break; case 3: t = "(" + t + ") == 1"; break; }
    rt_file("X", ""); rt_file("X Y", ""); rt_file("X (Y)", "");
    MacroTable mt; setup(mt); Preprocessor pp; pp.setMacroTable(&mt); RefExpr r(t); r.exists = isFile; r.p = 0; r.next(); compare(pp, t, r);
}
// characters that belong to no token, unterminated strings, calls and commands
extern "C" void E_bad()
{
    static const char *const heads[] = { "", "1", "1 ", "1 + 1 ", "\"a\" == \"a\"", "(1" };
    static const char *const tails[] = { "", " 1", " + 1", ")" };
    static const char *const mid[] = { "", "\"", "\"x", "DEFINED", "defined(", "defined(X", "defined()", "EXIST", "exist(", "exist(X", "[", "[x", "=", "def", "DEFINEDX(X)" };
    int h = rt_choose("h", 6), m = rt_choose("m", 15), t = rt_choose("t", 4); QByteArray c(mid[m]);
    if (m == 0) { char x = (char)rt_byte("x"); sym_assume(((x > 32) & (x < '!')) | ((x == '#') | (x == '\'') | (x == ',') | (x == '.') | (x == ':') | (x == ';') | (x == '?') | (x == '@') | (x == '\\') | (x == '^') | (x == '`') | (x == '{') | (x == '}') | (x == ']') | (x == '_') | ((x >= 'a') & (x <= 'c')) | ((x >= 'F') & (x <= 'Z')) | ((x > 0) & (x < 9)) | (x == 127))); c += x; }
    if ((m == 4 || m == 5 || m == 8 || m == 9) && t == 3) return;     // the parenthesis closes the call
    MacroTable mt; setup(mt); Preprocessor pp; pp.setMacroTable(&mt); int v;
    sym_assert(!eval(pp, QByteArray(heads[h]) + c + tails[t], &v), "a malformed expression is rejected"); sym_reach("error");
    sym_assert(eval(pp, "1+1", &v) && v == 2, "a later expression is not affected");
}
extern "C" void E_shell()
{
    QByteArray b = rt_bytes("c", "a ^[]\"", rt_choose("n", TIER == 2 ? 6 : 5)), want; bool ok = true;
    for (int i = 0; i < b.size(); ++i) {
        if (b.at(i) == '^' && i + 1 < b.size() && (b.at(i + 1) == '[' || b.at(i + 1) == ']')) want += b.at(++i);
        else if (b.at(i) == '[' || b.at(i) == ']' || b.at(i) == '^') ok = false;
        else want += b.at(i);
    }
    if (!ok) return;
    g_code = (int)sym_new("code", 32); g_cmd = "none"; MacroTable mt; Preprocessor pp; pp.setMacroTable(&mt); int v = 0;
    sym_assert(eval(pp, "[" + b + "] == 0", &v), "accepted"); sym_assert(rt_eqb(g_cmd, want), "the command between the brackets is run"); sym_assert(v == (g_code == 0), "its exit code is the value"); sym_reach("value");
}
