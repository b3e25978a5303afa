// @app: yes
// @entry: E_tools time=60 ttime=300 reach=builtin,cmdline,makefile,none
// @entry: E_make time=60 ttime=300 reach=plain,quoted,none,nested
// @entry: E_errors time=60 ttime=300 reach=ok,failed,refused,makefile
// @bound: the whole program from main() on; each of the 18 names of tools and flags overridden by the command line, the makefile or both with arbitrary letters, in the makefile itself and in a file it includes, with and without /R; paths of jom and of the working directory of 5 (thorough 7) characters of which up to 2 (3) are arbitrary out of { letters blank }; a jom started by $(MAKE) from a jom; /X in 4 spellings with a file that can or cannot be opened or reopened, with every outcome of the build
// @outside: environment variables with the names of predefined macros; directories whose path contains other white space than blanks; the text of the messages
#include "app.h"
static QList<QByteArray> ran; static bool mayFail, anyFailed;
static QByteArray appPath = "/app/jom.exe", curPath;
QString rt_appPath() { return QString::fromLatin1(appPath); }
QString rt_currentPath() { return curPath.isEmpty() ? rt_cwd() : QString::fromLatin1(curPath); }
// ---- the C library's files
static QByteArray opened, reopened, modes; static bool denyOpen, denyReopen; static int errAt = -1; static FILE *fileX() { static int x; return (FILE *)&x; }
extern "C" FILE *h_fopen(const char *n, const char *m) { opened = n; modes += m; return denyOpen ? nullptr : fileX(); }
extern "C" FILE *h_freopen(const char *n, const char *m, FILE *f) { modes += m; if (denyOpen || denyReopen) return nullptr; sym_assert(f == stderr, "only the error output is redirected"); reopened = n; errAt = rt_stderr().size(); return f; }
extern "C" int h_fclose(FILE *) { return 0; }
static void a_started(const WProc &p, int) { rt_observe("run", p.cmd); ran << p.cmd.toLatin1(); }
static int a_exitCode(const QString &) { if (!mayFail || !rt_bool("fail")) return 0; anyFailed = true; return 1; }
static void a_ended(const QString &, int) {}
static QStringList env() { return QStringList() << QString(R_("PATH=x")); }
static QByteArray chr(const char *n) { char c = (char)rt_byte(n); sym_assume((c >= 'a') & (c <= 'z')); return QByteArray(1, c); }
static const char *const N[] = { "AS", "ASFLAGS", "BC", "BCFLAGS", "CC", "CCFLAGS", "COBOL", "COBOLFLAGS", "CPP", "CPPFLAGS", "CXX", "CXXFLAGS", "FOR", "FORFLAGS", "PASCAL", "PASCALFLAGS", "RC", "RCFLAGS" };
static const char *const V[] = { "ml", "", "bc", "", "cl", "", "cobol", "", "cl", "", "cl", "", "fl", "", "pl", "", "rc", "" };
extern "C" void E_tools()
{
    const int n = 18; bool r = rt_bool("r"), sub = rt_bool("include"); int k = rt_choose("name", n + 1), how = k < n ? 1 + rt_choose("how", 3) : 0; QByteArray mk, c, m, all = "all:\n\trun"; QList<QByteArray> o; if (r) o << (rt_bool("late") ? "-R" : "/r"); o << "/f" << "mf";
    if (how & 1) { c = chr("c"); o << QByteArray(N[k]) + "=" + c; } if (how & 2) { m = chr("m"); mk = QByteArray(N[k]) + " = " + m + "\n"; }
    for (int i = 0; i < n; ++i) mk += QByteArray("!IFDEF ") + N[i] + "\nDD = $(DD)1\n!ELSE\nDD = $(DD)0\n!ENDIF\n"; all += " $(DD)";
    for (int i = 0; i < n; ++i) all += QByteArray(" [$(") + N[i] + ")]"; if (sub) { rt_file("in", mk); rt_file("mf", "!include in\n" + all + "\n"); } else rt_file("mf", mk + all + "\n");
    int x = a_run(a_list(o), env()); sym_assert(x == 0 && ran.size() == 1, "the command is run"); QByteArray want = "run"; for (int i = 0; i < n; ++i) want += QByteArray(" [") + (i == k ? (how & 1 ? c : m) : QByteArray(r ? "" : V[i])) + "]";
    QByteArray dd = " "; for (int i = 0; i < n; ++i) dd += r && i != k ? '0' : '1'; want = "run" + dd + want.mid(3);
    sym_assert(rt_eqb(ran.at(0), want), "the tools have their predefined names unless they are defined otherwise or /R is given"); sym_reach(how & 1 ? "cmdline" : how ? "makefile" : r ? "none" : "builtin");
}
static bool blank(const QByteArray &p) { for (int i = 0; i < p.size(); ++i) if (p.at(i) == ' ') return true; return false; }
static QByteArray path(const char *n) { int l = TIER == 2 ? 7 : 5, k = TIER == 2 ? 3 : 2; QByteArray b = "/"; int at = rt_choose("at", l - k + 1); while (b.size() < 1 + at) b += 'p'; for (int i = 0; i < k; ++i) { char c = (char)rt_byte(n); sym_assume(((c >= 'a') & (c <= 'z')) | (c == ' ')); b += c; } while (b.size() < l + 1) b += 'q'; return b; }
extern "C" void E_make()
{
    bool r = rt_bool("r"), nested = rt_bool("nested"); appPath = path("app") + "/jom.exe"; if (nested) appPath = "/b d/jom.exe"; curPath = path("dir"); rt_file("mf", nested ? "all:\n\t$(MAKE) /f sub\n" : "all:\n\trun $(MAKE) . $(MAKEDIR)\n"); QList<QByteArray> o; if (r) o << "/r"; o << "/f" << "mf"; bool qa = blank(appPath), qd = blank(curPath);
    QByteArray a = qa ? "\"" + appPath + "\"" : appPath, d = qd ? "\"" + curPath + "\"" : curPath; if (r) a = d = QByteArray(); int x = a_run(a_list(o), env());
    if (nested) {
        if (r) return; sym_assert(x == 0 && ran.size() == 1 && ran.at(0) == "\"/b d/jom.exe\" /f sub", "$(MAKE) starts jom, whose path is one argument"); sym_reach("nested"); return;
    }
    sym_assert(x == 0 && ran.size() == 1, "the command is run"); sym_assert(rt_eqb(ran.at(0), "run " + a + " . " + d), "MAKE and MAKEDIR are the path of jom and its directory, in quotes if they contain a blank"); sym_reach(r ? "none" : qa || qd ? "quoted" : "plain");
}
extern "C" void E_errors()
{
    int sp = rt_choose("spelling", 4), kind = rt_choose("makefile", 4); mayFail = true; denyOpen = rt_bool("denied"); denyReopen = !denyOpen && rt_bool("refused"); bool last = rt_bool("last"), logo = rt_bool("logo"), K = rt_bool("k"); QList<QByteArray> o; if (!logo) o << "/nologo"; if (K) o << "/k";
    static const char *const S[] = { "/x", "-X", "/xerr.txt", "-Xerr.txt" }; QList<QByteArray> x; x << S[sp]; if (sp < 2) x << "err.txt"; if (!last) o << x; o << "/f" << "mf"; if (last) o << x;
    static const char *const T[] = { "aa:\n\trun a\n\trun b\n", "aa:\n\trun a\n!error stop\n", "aa: missing\n\trun a\n", "aa: aa\n\trun a\n" }; rt_file("mf", T[kind]); int c = a_run(a_list(o), env());
        if (denyOpen || denyReopen) { sym_assert(c == 2 && ran.isEmpty() && rt_stderr().contains("Error"), "a file that cannot be written is an error"); sym_reach("refused"); return; }
    sym_assert(reopened == "err.txt" && errAt == 0, "errors go to the file given with /X from the start"); sym_assert(modes.count('w') == modes.size(), "the file is created anew"); sym_assert(opened.isEmpty() || opened == "err.txt", "no other file is created");
    if (kind) { sym_assert(c == 2 && ran.isEmpty() && !rt_stderr().isEmpty(), "the errors of the makefile are reported"); sym_reach("makefile"); }
    else { sym_assert((c != 0) == anyFailed && (ran.size() == 2 || anyFailed), "the build is not affected"); sym_reach(anyFailed ? "failed" : "ok"); }
}
