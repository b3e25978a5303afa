// @app: yes
// @entry: E_place time=200 ttime=1500 reach=main,included,middle
// @entry: E_message time=100 ttime=900 reach=printed,skipped,included,stopped
// @entry: E_split time=60 ttime=300 reach=several
// @bound: the whole program from main() on; every sequence of 2 (thorough 3) pieces of makefile text out of 12 kinds (definitions, continued lines, comments, blank lines, skipped branches, targets with commands, inline files, included files with and without a final newline) before 11 kinds of errors, in the makefile, in an included file or after it; every sequence of 4 (5) definitions, messages, conditionals and includes; errors in lines continued over up to 3 lines
// @outside: other errors, errors found after the whole makefile was read (missing !ENDIF, cycles, unknown targets), UTF-16
#include "app.h"
static void a_started(const WProc &, int) { sym_fail("nothing is built after an error in the makefile"); }
static int a_exitCode(const QString &) { return 0; }
static void a_ended(const QString &, int) {}
static int run() { return a_run(QStringList() << QString(R_("/nologo")) << QString(R_("/f")) << QString(R_("mf")), QStringList() << QString(R_("PATH=x"))); }
static int count(const QByteArray &t) { return t.count('\n'); }
static const char *const FILL[] = { "", "AB=1\n", "AB=1\\\n  2\n", "# !ERROR\n\n", "!IF 0\n!NOSUCH\nfoo bar\n!ERROR\n!ELSE\nCD=1\n!ENDIF\n", "ta:\n\trun\n\n", "tb: ta\n\trun <<\nfoo bar\n\n<<\n\trun\n", "!INCLUDE inc\n", "!INCLUDE ind\n", "td: ta; run\n", "\n\n", "te: \\\n# no\n  ta\n", ".SUFFIXES: .x\n.x.y:\n\trun ^\n  more\n" };
static const char *const ERR[] = { "!NOSUCH\n", "!ERROR wrong\n", "foo bar\n", "!ENDIF\n", "!ELSE\n", "!INCLUDE none\n", "tz: $(YY\n", "!IF 1 +\n", "!IF 1/0\n!ENDIF\n", "!IFDEF\n!ENDIF x\n!ENDIF\n", "tw: ta\n\trun\ntw:: tb\n" };
static const char *const TXT[] = { "NOSUCH", "ERROR: wrong", "syntax error", "ENDIF", "ELSE", "none", "$(", "", "", "ENDIF", ":" }; static const int AT[] = { 1, 1, 1, 1, 1, 1, 1, 1, 1, 3, 3 };
static void place(const QByteArray &file, int lo, int hi, const char *msg)
{
    int c = run(); QByteArray e = rt_stderr(); sym_assert(c == 2, "an error in the makefile makes jom fail"); sym_assert(e.startsWith("Error: ") && e.endsWith('\n') && e.contains(msg), "the error is reported");
    int l = e.lastIndexOf("line "), f = e.lastIndexOf(file); sym_assert(l > 0 && f > 0 && f + file.size() < l, "the file is named"); int n = 0; for (int i = l + 5; i < e.size() && e.at(i) >= '0' && e.at(i) <= '9'; ++i) n = n * 10 + (e.at(i) - '0');
    sym_observe_int("line", n); sym_assert(n >= lo && n <= hi, "the line of the error is given");
}
extern "C" void E_place()
{
    int n = TIER == 2 ? 3 : 2, e = rt_choose("error", 11), where = rt_choose("where", 3); QByteArray t; rt_file("inc", "CD=2\n# x\n\nEF=3\\\n 4"); rt_file("ind", "tf:\n\trun\n");
    for (int i = 0; i < n; ++i) { int k = rt_choose("fill", 13); t += FILL[k]; if (k == 5 && t.indexOf("ta:\n\trun", t.indexOf("ta:\n\trun") + 1) >= 0) return; }
    QByteArray body = t + ERR[e]; int line = count(t) + AT[e];
    if (where == 0) { rt_file("mf", body + "tx:\n\tlast\n"); sym_reach("main"); place("/mf", line, line, TXT[e]); }
    else if (where == 1) { rt_file("sub", body); rt_file("mf", "GH=1\n!INCLUDE sub\ntx:\n\tlast\n"); sym_reach("included"); place("/sub", line, line, TXT[e]); }
    else { rt_file("sub", t); rt_file("mf", QByteArray("GH=1\n!INCLUDE sub\n") + ERR[e] + "tx:\n\tlast\n"); sym_reach("middle"); place("/mf", 2 + AT[e], 2 + AT[e], TXT[e]); }
}
// an error in a statement of several lines
extern "C" void E_split()
{
    QByteArray pre, t; int k = rt_choose("pre", 3), n = rt_choose("lines", 3), e = rt_choose("error", 4); for (int i = 0; i < k; ++i) pre += "AB=1\n"; static const char *const H[] = { "foo", "tz: $(YY", "!NOSUCH", "!ERROR wrong" }; t = H[e]; for (int i = 0; i < n; ++i) { t += " \\\n more"; sym_reach("several"); }
    rt_file("mf", pre + t + "\ntx:\n\tlast\n"); place("/mf", k + 1, k + 1 + n, e == 0 ? "syntax" : e == 1 ? "$(" : e == 2 ? "NOSUCH" : "wrong");
}
extern "C" void E_message()
{
    int n = TIER == 2 ? 5 : 4; QByteArray t, want, v = "", inc; bool ok = true, skip = false; int open = 0, off = 0 /* open conditionals, the first of them whose branch is skipped */; rt_file("in", "!message  in-$(VV)\nVV=z\n");
    for (int i = 0; i < n; ++i) {
        QByteArray s; switch (rt_choose("kind", 9)) {
        case 0: t += "VV=p\n"; if (ok && !skip) v = "p"; break;
        case 1: t += "VV=$(VV)q\n"; if (ok && !skip) v += "q"; break;
        case 2: t += "!MESSAGE a$(VV)b\n"; s = "a" + v + "b\n"; break;
        case 3: t += "! message one  two^#x # no\n"; s = "one  two#x\n"; break;
        case 4: if (open == 2) return; ++open; t += "!IF \"$(VV)\" == \"p\"\n"; if (!off && v != "p") off = open; skip = off; break;
        case 5: if (!open) return; if (off == open) off = 0; --open; skip = off; t += "!ENDIF\n"; break;
        case 6: t += "!INCLUDE in\n"; if (ok && !skip) { want += "in-" + v + "\n"; v = "z"; sym_reach("included"); } break;
        case 7: t += "!ERROR e$(VV)\n"; if (ok && !skip) { ok = false; inc = "ERROR: e" + v + " in"; sym_reach("stopped"); } break;
        default: t += "aa:\n"; break;
        }
        if (!s.isEmpty()) { if (ok && !skip) { want += s; sym_reach("printed"); } else sym_reach("skipped"); }
    }
    while (open-- > 0) t += "!ENDIF\n"; rt_file("mf", t + "all:\n"); int c = run(); rt_observe("out", rt_stdout()); sym_assert(c == (ok ? 0 : 2), "only !ERROR in an active branch makes jom fail"); sym_assert(rt_stdout() == want, "messages are printed where they stand, with the macros as they are there"); if (!ok) sym_assert(rt_stderr().contains(inc), "the text of !ERROR is reported with the macros as they are there");
}
