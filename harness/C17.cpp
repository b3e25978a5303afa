// @entry: E_split time=150 ttime=900 reach=quoted,doubled,several,unbalanced
// @entry: E_long time=60 ttime=300 reach=ok
// @entry: E_file time=150 ttime=900 reach=lines,empty,nonl,two
// @entry: E_args time=60 ttime=300 reach=ok
// @entry: E_missing time=30 ttime=60 reach=missing,quoted
// @bound: every command line of up to 7 (thorough 9) characters over { " a blank TAB }; quoted arguments of up to 5 arbitrary characters with neighbours; command files of up to 6 (8) characters over { a b LF CR blank " } in every position of 2 explicit arguments; two command files; options, macro definitions and targets in one file
// @outside: arguments without any text, blanks at the ends of an argument whose quotation mark is never closed, command files inside command files, characters outside ASCII
#include "mk.h"
#include "helperfunctions.h"
static bool sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static bool refSplit(const QByteArray &s, QList<QByteArray> *out)
{
    QByteArray cur; bool in = false, any = false;
    for (int i = 0; i < s.size(); ++i) {
        char c = s.at(i);
        if (in) { if (c != '"') cur += c; else if (i + 1 < s.size() && s.at(i + 1) == '"') { cur += '"'; ++i; sym_reach("doubled"); } else in = false; continue; }
        if (c == '"') { in = any = true; sym_reach("quoted"); continue; }
        if (!sp(c)) { cur += c; continue; }
        if (!cur.isEmpty()) out->append(cur); else if (any) return false;
        cur = QByteArray(); any = false;
    }
    if (in) { sym_reach("unbalanced"); int n = cur.size(), a = 0; while (n > a && sp(cur.at(n - 1))) --n; while (a < n && sp(cur.at(a))) ++a; cur = cur.mid(a, n - a); if (cur.isEmpty()) return false; }
    if (!cur.isEmpty()) out->append(cur); else if (any && !in) return false;
    return true;
}
static void same(const QStringList &got, QList<QByteArray> want, bool unbalanced)
{
    for (int i = 0; i < got.size(); ++i) rt_observe("arg", got.at(i));
    sym_assert(got.size() == want.size(), "number of arguments");
    for (int i = 0; i < want.size(); ++i) { QString g = got.at(i); if (unbalanced && i == want.size() - 1) g = g.trimmed(); sym_assert(sameText(g, want.at(i)), "the arguments are the texts between blanks outside quotation marks, without these marks"); }
    if (want.size() > 1) sym_reach("several");
}
static bool unb(const QByteArray &s) { int n = 0; for (int i = 0; i < s.size(); ++i) if (s.at(i) == '"') ++n; return n & 1; }
extern "C" void E_split()
{
    int n = rt_choose("n", TIER == 2 ? 10 : 8); QByteArray s = rt_bytes("c", "\"a \t", n); QList<QByteArray> w; if (!refSplit(s, &w)) return; same(splitCommandLine(QString::fromLatin1(s)), w, unb(s));
}
extern "C" void E_long()
{
    int n = 1 + rt_choose("n", 5); QByteArray v; for (int i = 0; i < n; ++i) { uint8_t c = rt_byte("c"); sym_assume((c >= 32) & (c < 127) & (c != '"')); v += (char)c; }
    bool glue = rt_bool("glue"); QByteArray s = QByteArray("first ") + (glue ? "V=" : "") + "\"" + v + "\"\tlast "; QList<QByteArray> w; w << "first" << (glue ? "V=" : "") + v << "last"; same(splitCommandLine(QString::fromLatin1(s)), w, false); sym_reach("ok");
}
static void add(QList<QByteArray> &l, const QByteArray &a) { for (const QByteArray &x : l) if (rt_eqb(x, a)) return; l << a; }
static bool fileArgs(const QByteArray &text, QList<QByteArray> *out)
{
    int a = 0; for (int i = 0; i <= text.size(); ++i) if (i == text.size() || text.at(i) == '\n') { QByteArray line = text.mid(a, i - a); if (unb(line)) return false; if (!refSplit(line, out)) return false; a = i + 1; }
    return true;
}
extern "C" void E_file()
{
    int n = rt_choose("n", TIER == 2 ? 8 : 6), pos = rt_choose("pos", 3); bool two = rt_bool("two"), quoted = rt_bool("quoted"); QByteArray t = rt_bytes("c", "ab\n\r \"", n); QList<QByteArray> f; if (!fileArgs(t, &f)) return;
    for (const QByteArray &x : f) { bool blank = true; for (int i = 0; i < x.size(); ++i) if (!sp(x.at(i))) blank = false; if (blank) return; if (sp(x.at(0)) || sp(x.at(x.size() - 1))) return; }
    if (t.isEmpty()) sym_reach("empty"); else { if (t.at(n - 1) != '\n') sym_reach("nonl"); if (f.size() > 1) sym_reach("lines"); } if (two) sym_reach("two");
    rt_file("c f", t); rt_file("c2", "x\ny z\n"); QStringList in; for (int i = 0; i < 3; ++i) { if (i == pos) { in << QString(quoted ? R_("@\"c f\"") : R_("@c f")); if (two) in << QString(R_("@c2")); } if (i < 2) in << QString(i ? R_("q") : R_("p")); }
    QList<QByteArray> w; w << "p" << "q"; for (const QByteArray &x : f) add(w, x); if (two) { add(w, "x"); add(w, "y"); add(w, "z"); }
    Options o; MacroTable mt; QString mf; QStringList targets; sym_assert(o.readCommandLineArguments(in, mf, targets, mt), "the arguments are accepted"); for (int i = 0; i < targets.size(); ++i) rt_observe("target", targets.at(i));
    sym_assert(sameList(targets, w), "a command file contributes the arguments of all its lines after the explicit ones");
}
extern "C" void E_args()
{
    static const char *const A[] = { "/s", "-J3", "/f mf2", "V=\"a b\"", "\"W=a\"\"b\"", "tt", "/k" }; QByteArray t; bool on[7]; for (int i = 0; i < 7; ++i) { on[i] = rt_bool("on"); if (on[i]) t += QByteArray(A[i]) + (i & 1 ? "\r\n" : i == 2 ? "\n\n" : " "); }
    g_options.maxNumberOfJobs = 8; rt_file("cf", t); Options o; MacroTable mt; QString mf; QStringList targets; sym_assert(o.readCommandLineArguments(QStringList() << QString(R_("@cf")) << QString(R_("uu")), mf, targets, mt), "the arguments are accepted");
    sym_assert(o.suppressExecutedCommandsDisplay == on[0] && o.buildUnrelatedTargetsOnError == on[6] && g_options.maxNumberOfJobs == (on[1] ? 3 : 8) && sameText(mf, on[2] ? "mf2" : "Makefile"), "options of a command file take effect");
    QList<QByteArray> w; w << "uu"; if (on[5]) w << "tt"; sym_assert(sameList(targets, w), "targets of a command file"); if (on[3]) sym_assert(sameText(mt.macroValue(QString(R_("V"))), "a b"), "macro definitions of a command file"); if (on[4]) sym_assert(sameText(mt.macroValue(QString(R_("W"))), "a\"b"), "macro definitions of a command file"); sym_reach("ok");
}
extern "C" void E_missing()
{
    int k = rt_choose("k", 5); static const char *const A[] = { "@nofile", "@\"no file\"", "@", "@\"", "@\"\"" }; if (k == 1) sym_reach("quoted"); else sym_reach("missing");
    Options o; MacroTable mt; QString mf; QStringList targets; sym_assert(!o.readCommandLineArguments(QStringList() << QString(R_("")) + R_(A[k]), mf, targets, mt), "a command file that cannot be read is an error");
}
