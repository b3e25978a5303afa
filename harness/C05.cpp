// @entry: E_nest time=250 ttime=1500 reach=error,ok,taken,elif,nested
// @entry: E_ifdef time=250 ttime=1500 reach=error,ok,elif
// @entry: E_spelling time=60 ttime=300 reach=ok
// @entry: E_skipped time=100 ttime=600 reach=ok
// @entry: E_joined time=60 ttime=300 reach=ok
// @entry: E_put time=60 ttime=300 reach=ok
// @bound: every sequence of up to 6 (thorough 8) lines drawn from !IF c, !ELSE IF c, !ELSE, !ENDIF, text (c an arbitrary digit), and of up to 5 (6) lines from !IFDEF, !IFNDEF, !ELSE IFDEF, !ELSE IFNDEF, !ENDIF, definition, !UNDEF
// @bound: inactive text lines of up to 6 (8) characters over { $ ( ) ! # : = X blank }; all spellings of the directives on one skeleton
// @outside: errors inside branches that are skipped as a whole (they are not read), conditionals that begin and end in different files
#include "mk.h"
struct RefCond { int state; bool sawElse; };   // state: 0 no branch taken yet, 1 in the taken branch, 2 a branch was taken before
// reads the whole file and compares the delivered lines
static void compare(MacroTable &mt, const QByteArray &text, const QList<QByteArray> &want, bool err)
{
    rt_file("mf", text); Preprocessor pp; pp.setMacroTable(&mt); bool failed = false; int k = 0;
    try {
        pp.openFile(R_("mf"));
        for (;;) {
            QString l = pp.readLine(); if (l.isNull()) break;
            rt_observe("line", l); sym_assert(k < want.size(), "no line of an inactive branch is delivered"); sym_assert(sameText(l, want.at(k)), "active lines are delivered in order"); ++k;
        }
    } catch (Exception &) { failed = true; }
    sym_assert(k == want.size(), "every active line is delivered"); sym_assert(failed == err, err ? "a directive without its partner is an error" : "a well-formed nest of conditionals is accepted");
    sym_reach(err ? "error" : "ok");
}
// k: 0 if, 1 elseif, 2 else, 3 endif, 4 other. val: truth of the condition (-1 not evaluated). returns false on error
static bool step(QList<RefCond> &st, int k, int val)
{
    if (k == 0) { RefCond c; c.state = st.isEmpty() || st.last().state == 1 ? (val ? 1 : 0) : 2; if (!st.isEmpty() && st.last().state != 1) c.state = 3; c.sawElse = false; st.append(c); if (st.size() > 2) sym_reach("nested"); return true; }
    if (k == 4) return true;
    if (st.isEmpty()) return false;
    RefCond &c = st.last();
    if (c.state == 3) { if (k == 3) st.removeLast(); return true; }       // inside a skipped branch only nesting counts
    if (k == 3) { st.removeLast(); return true; }
    if (c.sawElse) return false;
    if (k == 2) c.sawElse = true;
    if (c.state == 1) c.state = 2;
    else if (c.state == 0 && (k == 2 || val)) { c.state = 1; sym_reach(k == 1 ? "elif" : "taken"); }
    return true;
}
static bool active(const QList<RefCond> &st) { return st.isEmpty() || st.last().state == 1; }
static bool evaluates(const QList<RefCond> &st, int k) { return k == 0 ? active(st) : k == 1 ? !st.isEmpty() && st.last().state == 0 && !st.last().sawElse : false; }
extern "C" void E_nest()
{
    int n = rt_choose("n", TIER == 2 ? 9 : 7); QByteArray text; QList<QByteArray> want; QList<RefCond> st; bool err = false;
    for (int i = 0; i < n && !err; ++i) {
        int k = rt_choose("k", 5); char d = (char)rt_byte("c"); sym_assume((d >= '0') & (d <= '9'));
        if (k == 0) text += QByteArray("!IF ") + d + "\n"; else if (k == 1) text += QByteArray("!ELSE IF ") + d + "\n"; else if (k == 2) text += "!ELSE\n"; else if (k == 3) text += "!ENDIF\n";
        else { QByteArray l = QByteArray("L") + (char)('a' + i) + ": x"; text += l + "\n"; if (active(st)) want.append(l); }
        int v = evaluates(st, k) ? d != '0' : -1;
        if (!step(st, k, v)) { err = true; for (int e = st.size(); e > 0; --e) text += "!ENDIF\n"; st.clear(); }   // nothing else is wrong
    }
    if (!st.isEmpty()) err = true;
    MacroTable mt; compare(mt, text, want, err);
}
extern "C" void E_ifdef()
{
    int n = rt_choose("n", TIER == 2 ? 7 : 6); QByteArray text; QList<QByteArray> want; QList<RefCond> st; bool err = false, def = rt_bool("def"); MacroTable mt; if (def) mt.setMacroValue("D", "0");
    for (int i = 0; i < n && !err; ++i) {
        int k = rt_choose("k", 7); static const char *txt[] = { "!IFDEF D\n", "!IFNDEF D\n", "!ELSE IFDEF D\n", "!ELSE IFNDEF D\n", "!ENDIF\n", "D=\n", "!UNDEF D\n" };
        text += txt[k]; QByteArray l = QByteArray("L") + (char)('a' + i);
        if (k >= 5) { if (active(st)) def = k == 5; }
        else { int kind = k < 2 ? 0 : k < 4 ? 1 : 3; if (!step(st, kind, (k & 1) ? !def : def)) { err = true; for (int e = st.size(); e > 0; --e) text += "!ENDIF\n"; st.clear(); break; } }
        text += l + "\n"; if (active(st)) want.append(l);
    }
    if (!st.isEmpty()) err = true;
    compare(mt, text, want, err);
    sym_assert(mt.isMacroDefined(R_("D")) == def, "definitions count iff they are in an active branch");
}
extern "C" void E_spelling()
{
    static const char *ifs[] = { "!IF ", "!if ", "! If ", "!\tiF\t" }, *elifs[] = { "!ELSEIF ", "!ELSE IF ", "!else  if ", "! Else If ", "!elseif " }, *els[] = { "!ELSE", "! else", "!Else # comment", "!else  " }, *ends[] = { "!ENDIF", "!endif ", "! EndIf # x", "!endif\t" };
    static const char *defs[] = { "!IFDEF D", "! ifdef  D ", "!IfDef D # c" }, *elds[] = { "!ELSEIFNDEF D", "!else ifndef D", "! Else IfNDef  D " };
    char a = (char)rt_oneOf("a", "01"), b = (char)rt_oneOf("b", "01"); bool d = rt_bool("d"); MacroTable mt; if (d) mt.setMacroValue("D", "1"); QByteArray text;
    QList<QByteArray> want; bool def = rt_bool("form");
    if (!def) {
        text = QByteArray(ifs[rt_choose("i", 4)]) + a + "\none\n" + elifs[rt_choose("e", 5)] + b + "\ntwo\n" + els[rt_choose("l", 4)] + "\nthree\n" + ends[rt_choose("n", 4)] + "\nend\n";
        want.append(a == '1' ? "one" : b == '1' ? "two" : "three");
    } else {
        text = QByteArray(defs[rt_choose("i", 3)]) + "\none\n" + elds[rt_choose("e", 3)] + "\ntwo\n" + els[rt_choose("l", 4)] + "\nthree\n" + ends[rt_choose("n", 4)] + "\nend\n";
        want.append(d ? "one" : "two");
    }
    want.append("end"); compare(mt, text, want, false);
}
// inactive lines are ignored whatever they contain
extern "C" void E_skipped()
{
    QByteArray v = rt_bytes("c", "$()!#:=X ", rt_choose("n", TIER == 2 ? 9 : 7)); bool bang = rt_bool("bang"); MacroTable mt; mt.setMacroValue("X", "v");
    if (bang) v = "!x" + v;
    int f = rt_choose("form", 3); QList<QByteArray> want; want.append("end");
    compare(mt, f == 0 ? "!IF 0\n" + v + "\n!ENDIF\nend\n" : f == 1 ? "!IF 1\n!ELSE\n" + v + "\n!ENDIF\nend\n" : "!IF 0\n!IF " + v + "\n" + v + "\n!ELSE IF " + v + "\n!ENDIF\n!ENDIF\nend\n", want, false);
    sym_assert(sameText(mt.macroValue(R_("X")), "v"), "macros are unchanged");
}
// a directive continued over several lines
extern "C" void E_joined()
{
    char a = (char)rt_oneOf("a", "01"), b = (char)rt_oneOf("b", "01"), c = (char)rt_oneOf("c", "01"); MacroTable mt; QList<QByteArray> want; bool skip = rt_bool("skip");
    QByteArray t = QByteArray("!IF ") + a + " && \\\n  " + b + "\nyes\n!ELSE IF \\\n" + c + "\nelif\n!ELSE\nno\n!ENDIF\nend\n";
    if (skip) t = "!IF 0\n" + t + "!ELSE\nlast\n!ENDIF\n"; else want << (a == '1' && b == '1' ? "yes" : c == '1' ? "elif" : "no") << "end";
    if (skip) want << "last";
    compare(mt, t, want, false);
}
// text that is still incomplete when a conditional starts is joined with the active lines only
extern "C" void E_put()
{
    char a = (char)rt_oneOf("a", "01"), b = (char)rt_oneOf("b", "01"); MacroTable mt; QList<QByteArray> want;
    QByteArray t = QByteArray("list: one \\\n!IF ") + a + "\n two \\\n!ELSE IF " + b + "\n three \\\n!ENDIF\n four\nend\n";
    want << (a == '1' ? "list: one  two  four" : b == '1' ? "list: one  three  four" : "list: one  four") << "end";
    compare(mt, t, want, false);
}
