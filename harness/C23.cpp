// @entry: E_graph time=200 ttime=1500 reach=read,cycle,twice,nested
// @entry: E_search time=200 ttime=1500 reach=cwd,parent,path,missing
// @entry: E_directive time=150 ttime=900 reach=read,quoted,comment
// @entry: E_lines time=150 ttime=900 reach=joined,read
// @entry: E_state time=100 ttime=600 reach=skipped,read,missing
// @entry: E_deep time=60 ttime=600 reach=together,empty,read
// @bound: every graph of 3 files (thorough 4) with up to 2 include directives each at 3 places, with and without a line end at the end of each file; every presence of the file in the current directory, the directories of 3 including files and 2 directories of the INCLUDE macro, for 4 spellings and a main makefile in a directory; include directives with up to 4 (6) symbolic blanks and letters, 5 ways to name the file; included files of up to 6 (8) characters over { a = # ! ^ \ LF blank TAB }; conditionals around includes and inside of included files
// @outside: UTF-16 files (C01), symbolic links, continuation lines and conditionals that reach over the end of a file, names that differ only in case
#include "mk.h"
struct Line { QByteArray text, file; int no; };
static QByteArray base(const QString &s) { QByteArray b = s.toLatin1(); return b.mid(b.lastIndexOf('/') + 1); }
struct Reader {
    Preprocessor pp; MacroTable mt; QList<QString> lines; bool failed; bool place;
    Reader() : failed(false), place(true) { pp.setMacroTable(&mt); }
    // reads everything and compares it with the lines wanted
    void read(const char *main, const QList<Line> &want, bool error)
    {
        int i = 0;
        try {
            pp.openFile(QString(R_("")) + R_(main));
            for (;;) {
                QString l = pp.readLine(); if (l.isNull()) break; rt_observe("line", l); sym_assert(i < want.size(), "no other lines are read");
                sym_assert(rt_eq(l, QString::fromLatin1(want.at(i).text)), "the lines of an included file appear at the place of the directive");
                if (place) { sym_assert(base(pp.currentFileName()) == want.at(i).file && (int)pp.lineNumber() == want.at(i).no, "the place of a line is that in its own file"); }
                ++i;
            }
        } catch (Exception &e) { failed = true; rt_observe("error", e.message()); }
        sym_observe_int("failed", failed); sym_assert(failed == error, "include cycles and missing files are errors and nothing else is"); sym_assert(i == want.size(), "all lines up to the end or the error are read");
    }
};
// ---- graphs
static int N; static int inc[4][2], at[4][2]; static bool nl[4]; static QList<Line> g_want;
static const char *const F[] = { "mf", "fa", "fb", "fc" };
static int g_reads[4];
static bool expand(int f, unsigned stack)
{
    if (stack & (1u << f)) { sym_reach("cycle"); return false; }
    if (g_reads[f]++) sym_reach("twice"); if (stack & (stack - 1)) sym_reach("nested"); int no = 0;
    for (int place = 0; place < 3; ++place) {
        for (int k = 0; k < 2; ++k) if (inc[f][k] && at[f][k] == place) { ++no; if (!expand(inc[f][k] - 1, stack | (1u << f))) return false; }
        if (place < 2) { ++no; Line l = { QByteArray(F[f]) + (char)('0' + place), F[f], no }; g_want.append(l); }
    }
    return true;
}
extern "C" void E_graph()
{
    N = TIER == 2 ? 4 : 3; int total = 0; bool rev = rt_bool("nl");
    for (int f = 0; f < N; ++f) { for (int k = 0; k < 2; ++k) { inc[f][k] = k && !inc[f][0] ? 0 : rt_choose("inc", N + 1); at[f][k] = inc[f][k] ? rt_choose("at", 3) : 0; if (inc[f][k]) ++total; if (k && at[f][1] < at[f][0]) return; } nl[f] = f == 0 ? rev : !rev; }
    if (total > (TIER == 2 ? 5 : 4)) return; bool used[4] = { true, false, false, false }; for (int r = 0; r < N; ++r) for (int f = 0; f < N; ++f) if (used[f]) for (int k = 0; k < 2; ++k) if (inc[f][k]) used[inc[f][k] - 1] = true;
    for (int f = 1; f < N; ++f) if (!used[f] && inc[f][0]) return;      // files that are not read do not matter
    for (int f = 0; f < N; ++f) { QByteArray t; for (int p = 0; p < 3; ++p) { for (int k = 0; k < 2; ++k) if (inc[f][k] && at[f][k] == p) t += QByteArray("!include ") + F[inc[f][k] - 1] + "\n"; if (p < 2) t += QByteArray(F[f]) + (char)('0' + p) + "\n"; } if (!nl[f]) t.chop(1); rt_file(F[f], t); }
    bool ok = expand(0, 0); Reader r; r.read("mf", g_want, !ok); if (ok) sym_reach("read");
}
// ---- search
extern "C" void E_search()
{   // m/mf or mf includes sub/fa, which includes s2/fb, which includes the file
    static const char *const SP[] = { "xx", "<xx>", "\"xx\"", "<\"xx\">" }; bool inDir = rt_bool("dir"); int sp = rt_choose("spelling", 4), inc = rt_choose("path", 4); bool angle = sp == 1 || sp == 3;
    static const char *const INC[] = { "", "i1;i2", "i2;;i1", ";i1" }; rt_dir("m"); rt_dir("sub"); rt_dir("s2"); rt_dir("i1"); rt_dir("i2");
    static const char *const PL[] = { "xx", "s2/xx", "sub/xx", "m/xx", "i1/xx", "i2/xx" }; bool has[6]; for (int i = 0; i < 6; ++i) { has[i] = i == 3 && !inDir ? false : i > 3 && !angle ? true : rt_bool("has"); if (has[i]) rt_file(PL[i], QByteArray("at") + (char)('0' + i) + "\n"); }
    rt_file(inDir ? "m/mf" : "mf", "b0\n!include sub/fa\ne0\n"); rt_file("sub/fa", "b1\n!INCLUDE <s2/fb>\ne1\n"); rt_file("s2/fb", QByteArray("b2\n!include ") + SP[sp] + "\ne2\n");
    int order[6], n = 0; for (int i = 0; i < 4; ++i) order[n++] = i; if (angle) { if (inc == 1) { order[n++] = 4; order[n++] = 5; } if (inc == 2) { order[n++] = 5; order[n++] = 4; } if (inc == 3) order[n++] = 4; }
    int found = -1; for (int k = 0; k < n && found < 0; ++k) if (has[order[k]]) found = order[k];
    QList<Line> w; Line l0 = { "b0", "mf", 1 }, l1 = { "b1", "fa", 1 }, l2 = { "b2", "fb", 1 }, e2 = { "e2", "fb", 3 }, e1 = { "e1", "fa", 3 }, e0 = { "e0", "mf", 3 }; w << l0 << l1 << l2; if (found >= 0) { Line x = { QByteArray("at") + (char)('0' + found), "xx", 1 }; w << x << e2 << e1 << e0; }
    Reader r; if (inc) r.mt.setMacroValue(QString(R_("INCLUDE")), QString(R_("")) + R_(INC[inc])); r.read(inDir ? "m/mf" : "mf", w, found < 0);
    sym_reach(found < 0 ? "missing" : found == 0 ? "cwd" : found < 4 ? "parent" : "path");
}
// ---- the directive
static bool isBlank(char c) { return c == ' ' || c == '\t'; }
extern "C" void E_directive()
{
    int m = TIER == 2 ? 4 : 3; bool old = rt_bool("old"); QByteArray word = rt_bool("upper") ? "INCLUDE" : "include"; { uint8_t p = (uint8_t)rt_choose("case", 8); if (p < 7) word[p] = (char)(word.at(p) ^ 32); }
    QByteArray a = old ? QByteArray() : rt_bytes("a", " \t", rt_choose("na", m)), b = rt_bytes("b", " \t", 1 + rt_choose("nb", m)), c = rt_bytes("c", " \t", rt_choose("nc", m)); int form = rt_choose("form", 5), rem = rt_choose("comment", 2);
    static const char *const N[] = { "f.x", "\"f y\"", "$(NAME)", "<f.x>", "f y" }; if (form == 1) sym_reach("quoted"); if (rem) sym_reach("comment");
    rt_file("f.x", "in\n"); rt_file("f y", "in\n"); rt_file("mf", (old ? word : "!" + a + word) + b + N[form] + c + (rem ? "# c" : "") + "\nafter\n");
    QList<Line> w; Line x = { "in", form == 1 || form == 4 ? "f y" : "f.x", 1 }, y = { "after", "mf", 2 }; w << x << y; Reader r; r.mt.setMacroValue(QString(R_("NAME")), QString(R_("f.x"))); r.read("mf", w, false); sym_reach("read");
}
// ---- the text of included files: the same lines as if the text were written in place
extern "C" void E_lines()
{
    int n = rt_choose("n", TIER == 2 ? 9 : 7); QByteArray s = rt_bytes("c", "a=#!^\\\n \t", n); 
    if (n) { char l = s.at(n - 1); sym_assume((l != '\\') & (l != '^')); if (n > 1) { char k = s.at(n - 2); sym_assume(!((l == '\n') & ((k == '\\') | (k == '^')))); } }
    rt_file("mf", "b\n!include fa\ne\n"); rt_file("fa", s); rt_file("mg", "b\n" + s + (n && s.at(n - 1) != '\n' ? "\n" : "") + "e\n"); QList<Line> w;
    QList<QString> l[2]; bool failed[2] = { false, false }; QString err[2];
    for (int k = 0; k < 2; ++k) { Reader r; try { r.pp.openFile(QString(R_(k ? "mg" : "mf"))); for (;;) { QString x = r.pp.readLine(); if (x.isNull()) break; rt_observe("line", x); l[k].append(x); } } catch (Exception &e) { failed[k] = true; } }
    sym_assert(failed[0] == failed[1], "an included text is in error iff it is in error in place"); if (failed[0]) return; sym_assert(l[0].size() == l[1].size(), "an included file yields the same lines as its text in place"); for (int i = 0; i < l[0].size(); ++i) sym_assert(rt_eq(l[0].at(i), l[1].at(i)), "an included file yields the same lines as its text in place");
    sym_reach("read"); if (s.contains("\\\n")) sym_reach("joined");
}
// ---- conditionals and macros
extern "C" void E_state()
{
    bool c0 = rt_bool("c0"), c1 = rt_bool("c1"), has = rt_bool("has"), els = rt_bool("else"); QByteArray t = "V=1\n!if " + QByteArray(c0 ? "1" : "0") + "\n!include fa\n"; if (els) t += "!else\n!include fb\n"; t += "!endif\nend$(V)\n";
    rt_file("mf", t); if (has) rt_file("fa", "V=2\n!if " + QByteArray(c1 ? "1" : "0") + "\nyes\n!else\nno\n!endif\nlast\n"); rt_file("fb", "!ifdef V\nV=3\n!endif\nother\n");
    QList<Line> w; Line yes = { "yes", "fa", 3 }, no = { "no", "fa", 5 }, last = { "last", "fa", 7 }, other = { "other", "fb", 4 }, end = { "end$(V)", "mf", els ? 7 : 5 }; bool miss = c0 && !has;
    if (c0 && has) { w << (c1 ? yes : no) << last; sym_reach("read"); } if (!c0) { sym_reach("skipped"); if (els) w << other; } if (!miss) w << end; else sym_reach("missing");
    Reader r; r.read("mf", w, miss); if (!miss) sym_assert(r.mt.macroValue(QString(R_("V"))) == QString(R_("")) + R_(c0 ? "2" : els ? "3" : "1"), "macros defined in an included file are defined afterwards");
}
// ---- files that end together
extern "C" void E_deep()
{
    int n = 1 + rt_choose("depth", TIER == 2 ? 7 : 5), same = 0; QList<Line> w, tails; static const char *const N[] = { "mf", "f1", "f2", "f3", "f4", "f5", "f6", "f7" };
    for (int i = 0; i <= n; ++i) {
        bool head = i == n ? rt_bool("head") : i != 1; QByteArray t; int no = 0; if (head) { ++no; t = QByteArray("h") + (char)('0' + i) + "\n"; Line l = { QByteArray("h") + (char)('0' + i), N[i], no }; w << l; }
        if (i == n) { if (!head) sym_reach("empty"); if (head && rt_bool("nl")) t.chop(1); rt_file(N[i], t); break; }
        ++no; t += QByteArray("!include ") + N[i + 1]; int k = rt_choose("tail", 4);
        if (k) t += "\n"; else ++same; if (k == 1) ++same; if (k == 2) { ++no; t += QByteArray("e") + (char)('0' + i) + "\n"; Line l = { QByteArray("e") + (char)('0' + i), N[i], no }; tails << l; } if (k == 3) t += "# c\n";
        rt_file(N[i], t);
    }
    for (int i = tails.size(); i-- > 0;) w << tails.at(i);
    Reader r; r.read("mf", w, false); sym_reach("read"); if (same > 2) sym_reach("together");
}
