// @entry: E_text time=150 ttime=900 reach=direct,shell,fallback,percent
// @entry: E_quotes time=100 ttime=600 reach=direct,shell,fallback
// @entry: E_builtin time=100 ttime=600 reach=direct,shell
// @entry: E_seq time=200 ttime=1500 reach=cd,set,rem,shell,failed,two
// @entry: E_dry time=100 ttime=600 reach=dry
// @bound: command texts of up to 4 (thorough 5) characters over { % | < > & ( ^ blank a } between two letters, of up to 4 (5) characters over { " blank a & } with any first character, every shell built-in in lower, upper and mixed case alone, with blank or tab and argument and as prefix of a longer word; every sequence of 3 (4) commands out of 13 kinds (plain, shell, cd in 5 forms, set, rem, ::, silent, redirected) over two targets (one job, or two), with nothing or a modifier and white space before all of them; every outcome of starting directly
// @outside: << (C15), file name macros (C14), prefixes (C13), cd to another drive or to something that is not a directory, set without assignment, a shell that cannot be started
#include "hsched.h"
static bool forceFail;
static bool envHas(const WProc &p, const char *nv) { QString e = QString::fromUtf16((const ushort *)p.env.constData(), p.env.size() / 2), w = QString(R_("")) ; w += QChar(ushort(0)); w += R_(nv); w += QChar(ushort(0)); e.prepend(QChar(ushort(0))); return e.contains(w); }
static bool isShell(const QString &c) { return c.startsWith(R_("cmd.exe /C ")); }
static bool canStart(const QString &c) { return isShell(c) || !forceFail; }
static void s_ended(const QString &, bool) {}
static void s_started(const QString &, int) {}
// how cmd.exe reads the text after /C
static QString effective(const QString &shellCmd)
{
    QString s = shellCmd.mid(11); int n = 0, a = -1, b = -1; bool special = false;
    for (int i = 0; i < s.size(); ++i) { ushort c = s.at(i).unicode(); if (c == '"') { ++n; if (a < 0) a = i; b = i; } if (c == '&' || c == '<' || c == '>' || c == '(' || c == ')' || c == '@' || c == '^' || c == '|') special = true; }
    if (a != 0) return s;
    if (n == 2 && !special && s.mid(1, b - 1).contains(R_(" "))) return s;   // may be the quoted name of a program
    return n == 1 ? s.mid(1) : s.mid(1, b - 1) + s.mid(b + 1);
}
static QString unpercent(const QByteArray &c) { QString r; for (int i = 0; i < c.size(); ++i) { r += QLatin1Char(c.at(i)); if (c.at(i) == '%' && i + 1 < c.size() && c.at(i + 1) == '%') { ++i; sym_reach("percent"); } } return r; }
static bool prefixes;
static void one(const QByteArray &c, bool mustShell, bool mayDirect)
{
    s_canStart = canStart; forceFail = rt_bool("nostart"); static const char *const PRE[] = { "", "@\t", "- " }; QByteArray t = QByteArray("tt:\n\t") + PRE[prefixes ? rt_choose("prefix", 3) : 0] + c + "\n"; Mk mk; sym_assert(mk.read(t), "the makefile is read");
    int code = s_build(mk, 1); sym_assert(code == 0, "the build succeeds"); sym_assert(w_procs().size() == 1, "the command is run once");
    QString got = w_procs().at(0).cmd, want = unpercent(c); rt_observe("cmd", got);
    if (isShell(got)) { sym_assert(mustShell || forceFail || !mayDirect, "a plain program call is started directly"); sym_assert(rt_eq(effective(got), want), "the shell gets the command as written"); sym_reach(mustShell ? "shell" : "fallback"); }
    else { sym_assert(!mustShell, "a command for the shell is passed to the shell"); sym_assert(rt_eq(got, want), "the command is started as written"); sym_reach("direct"); }
}
extern "C" void E_text()
{
    int n = rt_choose("n", TIER == 2 ? 6 : 5); QByteArray c = rt_bytes("c", "%|<>&(^ a", n); bool sh = false;
    for (int i = 0; i < n; ++i) { char x = c.at(i); if ((x == '|') | (x == '<') | (x == '>') | (x == '&')) sh = true; if (i) sym_assume(!((x == '<') & (c.at(i - 1) == '<'))); }
    one("p" + c + "z", sh, true);
}
extern "C" void E_quotes()
{
    int n = rt_choose("n", TIER == 2 ? 6 : 5); QByteArray c = rt_bytes("c", "\" a&", n); bool sh = false;
    for (int i = 0; i < n; ++i) if (c.at(i) == '&') sh = true;
    if (n) sym_assume(c.at(0) != ' ');
    one(c + "z", sh, true);
}
extern "C" void E_builtin()
{
    static const char *const W[] = { "assoc", "break", "call", "chdir", "cls", "color", "copy", "del", "dir", "echo", "endlocal", "erase", "exit", "for", "ftype", "goto", "if", "md", "move", "path", "pause", "popd", "prompt", "pushd", "ren", "rename", "setlocal", "shift", "time", "title", "type", "ver", "verify", "vol" };
    prefixes = true; int k = rt_choose("w", sizeof(W) / sizeof(*W)), form = rt_choose("form", 3); QByteArray w(W[k]);
    if (form == 1) w = w.toUpper(); else if (form == 2) { w = w.left(1).toUpper() + w.mid(1); }
    switch (rt_choose("after", 4)) {
    case 0: one(w + " arg", true, false); break;
    case 1: one(w + "\targ", true, false); break;
    case 2: one(w, false, false); break;
    default: one(w + "x" + " arg", false, true); break;
    }
}
struct Exp { QByteArray cmd; bool shell; QByteArray cwd; bool v; };
extern "C" void E_seq()
{
    int n = TIER == 2 ? 4 : 3, split = rt_choose("split", n + 1); rt_dir("su"); rt_dir("su/in"); rt_dir("s p");
    QByteArray t = "tt: tu\n"; QList<QByteArray> lines; QList<Exp> exp; QByteArray out; bool failed = false; int fail = -1; QByteArray cwd; bool v = false; int cmdNo = 0;
    static const char *const PRE[] = { "", "@ ", "-0\t" }; int pre = rt_choose("prefix", 3);      // white space after modifiers does not belong to the command
    QList<int> kinds; for (int i = 0; i < n; ++i) kinds.append(rt_choose("kind", 13));
    QByteArray body[2]; 
    for (int i = 0; i < n; ++i) {
        int g = i < split ? 0 : 1; if (i == split) cwd = ""; QByteArray c, no = QByteArray::number(i);
        switch (kinds.at(i)) {
        case 0: c = "prog " + no; break;
        case 1: c = "prog " + no + " > f"; break;
        case 2: c = "cd su"; break;
        case 3: c = "CD\t\"s p\""; break;
        case 4: c = "cd /d su"; break;
        case 5: c = "cd no"; break;
        case 6: c = "cd .."; break;
        case 7: c = "set VV=x"; break;
        case 8: c = "rem prog"; break;
        case 9: c = ":: prog"; break;
        case 10: if (pre) return; c = "@prog " + no; break;
        case 11: c = "cd in"; break;
        default: c = "set VV="; break;
        }
        body[g] += QByteArray("\t") + PRE[pre] + c + "\n"; if (failed) continue;
        bool silent = pre == 1 || c.startsWith("@"); QByteArray p = c.startsWith("@") && !pre ? c.mid(1) : c; if (!silent) out += "\t" + p + "\n";
        switch (kinds.at(i)) {
        case 0: case 1: case 10: { Exp e = { p, kinds.at(i) == 1, cwd, v }; exp.append(e); if (kinds.at(i) == 1) sym_reach("shell"); } break;
        case 2: case 4: if (cwd == "/..") return; if (cwd.isEmpty()) cwd = "/su"; else failed = true; sym_reach("cd"); break;
        case 3: if (cwd == "/..") return; if (cwd.isEmpty()) cwd = "/s p"; else failed = true; break;
        case 5: failed = true; break;
        case 6: if (cwd.isEmpty()) { cwd = "/.."; break; } if (cwd == "/..") return; cwd = cwd.left(cwd.lastIndexOf('/')); sym_reach("cd"); break;
        case 12: v = false; break;
        case 7: v = true; sym_reach("set"); break;
        case 8: case 9: sym_reach("rem"); break;
        case 11: if (cwd == "/..") return; if (cwd == "/su") { cwd = "/su/in"; sym_reach("two"); } else failed = true; break;
        }
        if (failed) sym_reach("failed");
    }
    t += body[1] + "tu:\n" + body[0]; Mk mk; sym_assert(mk.read(t), "the makefile is read");
    int code = s_build(mk, pre ? 1 : 2);       // two jobs: the second target may be run by another executor sym_assert((code != 0) == failed, "the exit code tells whether a command failed");
    sym_assert(w_procs().size() == exp.size(), "the commands are run once each");
    for (int i = 0; i < exp.size(); ++i) {
        const WProc p = w_procs().at(i); QString want = QString::fromLatin1(exp.at(i).cmd); if (exp.at(i).shell) want.prepend(R_("cmd.exe /C "));
        rt_observe("cmd", p.cmd); sym_assert(p.cmd == want, "commands run in the written order, as written");
        QString d = p.cwd.isEmpty() ? rt_cwd() : QDir::cleanPath(p.cwd); sym_assert(d == QDir::cleanPath(rt_cwd() + QString::fromLatin1(exp.at(i).cwd)), "a command runs in the directory chosen by the preceding cd");
        sym_assert(envHas(p, "VV=x") == exp.at(i).v, "set takes effect for the following commands");
    }
    sym_assert(rt_stdout() == out, "every command is printed before it is run unless it is silent");
}
extern "C" void E_dry()
{
    int n = TIER == 2 ? 4 : 3; QByteArray t = "tt: tu\n", body[2], out; int split = rt_choose("split", n + 1); rt_dir("su");
    for (int i = 0; i < n; ++i) {
        QByteArray c; switch (rt_choose("kind", 6)) { case 0: c = "prog"; break; case 1: c = "@prog > f"; break; case 2: c = "cd no"; break; case 3: c = "set VV=x"; break; case 4: c = "rem prog"; break; default: c = "-prog %%x"; break; }
        body[i < split ? 0 : 1] += "\t" + c + "\n"; if (c.startsWith("@") || c.startsWith("-")) c = c.mid(1); out += "\t" + c + "\n";
    }
    t += body[1] + "tu:\n" + body[0]; Mk mk; sym_assert(mk.read(t), "read"); mk.o->dryRun = true; mk.o->suppressExecutedCommandsDisplay = rt_bool("s");
    int code = s_build(mk, 1 + rt_choose("jobs", 2)); sym_assert(code == 0, "a dry run succeeds"); sym_assert(w_procs().isEmpty(), "a dry run starts nothing");
    sym_assert(rt_stdout() == out, "a dry run prints every command"); sym_reach("dry");
}
