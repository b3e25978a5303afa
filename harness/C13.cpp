// @entry: E_prefix time=150 ttime=900 reach=at,minus,number,bang,failed,tolerated,crash
// @entry: E_number time=60 ttime=600 reach=failed,tolerated
// @entry: E_sequence time=100 ttime=600 reach=failed,tolerated
// @entry: E_ignore time=100 ttime=600 reach=failed,tolerated
// @entry: E_silent time=60 ttime=600 reach=printed,silent
// @bound: every prefix of up to 4 (thorough 5) characters over { - @ ! 0 2 9 blank } before a command, every tolerance of up to 5 (7) digits, every 32-bit exit code (for several runs: codes below 10, around 300 and a crash); sequences of 3 commands with any tolerance out of { none, -, -0, -7, -300 }; /I and .IGNORE, /S and .SILENT at every place between two and three targets; commands from dependency lines (;), indented lines and inference rules
// @outside: tolerances of ten digits and more
#include "hsched.h"
static void s_started(const QString &, int) {}
static void s_ended(const QString &, bool) {}
struct Pre { bool tol, all, silent, single; unsigned max; int rest; };
static bool digit(char c) { return (c >= '0') & (c <= '9'); }
static bool blank(char c) { return c == ' '; }
static Pre prefix(const QByteArray &c)
{
    Pre p = { false, false, false, false, 0, 0 }; int i = 0;
    for (;;) {
        if (c.at(i) == '-') {
            while (c.at(i) == '-') ++i;
            p.tol = true; p.all = true; p.max = 0; sym_reach("minus"); if (digit(c.at(i))) { p.all = false; sym_reach("number"); while (digit(c.at(i))) p.max = p.max * 10 + (unsigned)(c.at(i++) - '0'); }
        } else if (c.at(i) == '@') { p.silent = true; ++i; sym_reach("at"); }
        else if (c.at(i) == '!') { p.single = true; ++i; sym_reach("bang"); }
        else break;
    }
    while (blank(c.at(i))) ++i; p.rest = i; return p;
}
// exit code of the process chosen by the solver; a negative one is that of a crash
static uint32_t anyCode() { uint32_t c = (uint32_t)sym_new("code", 32); sym_assume(c != 0xf291); return c; }
// small codes, codes around 300 and a crash
static uint32_t someCode() { uint32_t c = (uint32_t)sym_new("code", 32); sym_assume((c < 10) | ((c >= 298) & (c < 303)) | (c == 0xc0000005u)); return c; }
static QList<uint32_t> plan; static int nextCode;
static uint32_t exitCode(const QString &) { return plan.at(nextCode++); }
static bool fails(const Pre &p, uint32_t code) { if (p.all) return false; bool f = code > p.max; if (f && code >> 31) sym_reach("crash"); return f; }
extern "C" void E_prefix()
{
    int n = rt_choose("n", TIER == 2 ? 6 : 5); QByteArray c = rt_bytes("c", "-@!029 ", n); c += "ab c"; if (n) sym_assume(c.at(0) != ' ');
    Pre p = prefix(c); QByteArray rest = c.mid(p.rest);
    int deps = p.single ? rt_choose("deps", 3) : 1; bool semi = n < 3 ? rt_bool("semi") : false;
    QByteArray t = "tt:"; if (deps > 0) t += " d1"; if (deps > 1) t += " d2"; t += semi ? " ; " + c + "\n" : "\n\t" + c + "\n"; if (deps > 0) rt_file("d1", "x"); if (deps > 1) rt_file("d2", "x");
    Mk mk; sym_assert(mk.read(t), "the makefile is read");
    int runs = p.single ? deps : 1; plan.clear(); bool failed = false; int started = 0; for (int i = 0; i < runs; ++i) { uint32_t k = deps < 2 ? anyCode() : someCode(); plan.append(k); if (!failed) { ++started; if (fails(p, k)) failed = true; } }
    s_exitCode = exitCode; int code = s_build(mk, 1); sym_assert(w_procs().size() == started, "a command with ! runs once for each dependent, others once; nothing runs after a failure");
    for (int i = 0; i < started; ++i) { rt_observe("cmd", w_procs().at(i).cmd); sym_assert(rt_eq(w_procs().at(i).cmd, QString::fromLatin1(rest)), "the rest of the command is unchanged"); }
    sym_assert((code != 0) == failed, "a command fails iff its exit code exceeds the tolerance");
    QByteArray out; if (!p.silent) for (int i = 0; i < started; ++i) out += "\t" + rest + "\n"; sym_assert(rt_eqb(rt_stdout(), out), "a command is printed unless it is silent");
    sym_reach(failed ? "failed" : "tolerated");
}

// every tolerance of up to nine digits
extern "C" void E_number()
{
    int n = 1 + rt_choose("n", TIER == 2 ? 7 : 5); QByteArray d; for (int i = 0; i < n; ++i) { unsigned char x = (unsigned char)rt_byte("d"); sym_assume((x >= '0') & (x <= '9')); d += (char)x; } uint32_t k = anyCode(); plan.append(k); uint64_t max = 0; for (int i = 0; i < n; ++i) max = max * 10 + (uint64_t)((unsigned char)d.at(i) - 48u);
    bool at = rt_bool("at"); QByteArray c = QByteArray(at ? "@-" : "-") + d + (rt_bool("blank") ? " " : at ? "" : "@") + "ab c"; Mk mk; sym_assert(mk.read("tt:\n\t" + c + "\n"), "the makefile is read"); s_exitCode = exitCode; int code = s_build(mk, 1); sym_assert(w_procs().size() == 1 && w_procs().at(0).cmd == QString(R_("ab c")), "the rest of the command is unchanged");
    sym_assert((code != 0) == (k > max), "a command fails iff its exit code exceeds the tolerance"); sym_reach(code ? "failed" : "tolerated");
}

static const char *const PRE[] = { "", "-", "-0", "-7", "--300", "-1", "@-7@", "-3-", "-3-1" };
static Pre preOf(int k) { return prefix(QByteArray(PRE[k]) + "x"); }
// several commands in a row
extern "C" void E_sequence()
{
    int n = 3, from = rt_choose("from", 3); QByteArray t = "tt:"; QList<Pre> ps; 
    if (from == 2) t = ".SUFFIXES: .aa .bb\nff.bb:\n.aa.bb:\n"; else t += from == 1 ? " ;" : "\n";
    if (from == 2) rt_file("ff.aa", "x");
    for (int i = 0; i < n; ++i) { int k = rt_choose("pre", TIER == 2 ? 9 : 5); ps.append(preOf(k)); if (from != 1 || i) t += "\t"; t += QByteArray(PRE[k]) + "run " + QByteArray::number(i) + "\n"; }
    Mk mk; sym_assert(mk.read(t), "the makefile is read"); bool failed = false; int started = 0;
    for (int i = 0; i < n; ++i) { uint32_t k = someCode(); plan.append(k); if (!failed) { ++started; if (fails(ps.at(i), k)) failed = true; } }
    s_exitCode = exitCode; int code = s_build(mk, 1);
    sym_assert(w_procs().size() == started, "the commands up to the first that fails are run"); sym_assert((code != 0) == failed, "a build fails iff the exit code of a command exceeds its tolerance");
    for (int i = 0; i < started; ++i) sym_assert(w_procs().at(i).cmd == QString(R_("run ")) + QString::number(i), "prefixes are stripped");
    sym_reach(failed ? "failed" : "tolerated");
}
// option and directive: any code is tolerated for the commands that follow
extern "C" void E_ignore()
{
    static const char *const P[] = { "", "-", "@", "@-" };
    int how = rt_choose("how", 4), n = 2; QByteArray t; Mk mk; bool ign = false; if (how == 1) { mk.o->stopOnErrors = false; ign = true; }
    int place = rt_choose("place", n + 1); bool failed = false; int started = 0; t = how == 3 ? "tt: tz t1 t0\ntz:\n" : "tt: t1 t0\n";
    QByteArray blocks; QList<bool> all;
    for (int i = 0; i < n; ++i) {
        if (how >= 2 && place == i) { blocks += how == 2 ? ".IGNORE:\n" : ".IGNORE :\n"; ign = true; }
        int k = rt_choose("pre", 4); blocks += "t" + QByteArray::number(i) + ":\n\t" + P[k] + "run " + QByteArray::number(i) + "\n"; all.append(ign || (k & 1));
    }
    for (int i = n; i-- > 0;) { uint32_t c = someCode(); plan.append(c); if (!failed) { ++started; if (!all.at(i) && c != 0) failed = true; } }
    sym_assert(mk.read(t + blocks), "the makefile is read"); s_exitCode = exitCode; int code = s_build(mk, 1);
    sym_assert(w_procs().size() == started, "the commands up to the first that fails are run"); sym_assert((code != 0) == failed, "a command with the default tolerance fails iff its exit code is not 0, unless failures are ignored");
    sym_reach(failed ? "failed" : "tolerated");
}
extern "C" void E_silent()
{
    static const char *const P[] = { "", "-", "@", "!@", "@-2@" };
    bool opt = rt_bool("S"), dir = false; int n = 3, place = rt_choose("place", n + 1); QByteArray t = "tt: t2 t1 t0\n"; QByteArray out[3];
    for (int i = 0; i < n; ++i) {
        if (place == i) { t += rt_bool("space") ? ".SILENT :\n" : ".SILENT:\n"; dir = true; }
        int k = rt_choose("pre", 5); QByteArray c = "run " + QByteArray::number(i); t += "t" + QByteArray::number(i) + ": dd\n\t" + P[k] + c + "\n";
        if (!opt && !dir && k < 2) { out[i] = "\t" + c + "\n"; sym_reach("printed"); } else sym_reach("silent");
    }
    rt_file("dd", "x"); Mk mk; mk.o->suppressExecutedCommandsDisplay = opt; sym_assert(mk.read(t), "the makefile is read");
    int code = s_build(mk, 1); sym_assert(code == 0 && w_procs().size() == n, "all commands are run"); QByteArray o = rt_stdout();
    for (int i = 0; i < n; ++i) { QByteArray c = "\trun " + QByteArray::number(i) + "\n"; sym_assert((o.indexOf(c) >= 0) == !out[i].isEmpty(), "a command is printed unless it is silent"); }
    sym_assert(o.size() == out[0].size() + out[1].size() + out[2].size(), "nothing else is printed");
}
