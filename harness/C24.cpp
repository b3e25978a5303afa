// @entry: E_any time=150 ttime=1200 reach=read,error
// @entry: E_place time=250 ttime=1800 reach=read,error
// @entry: E_fold time=200 ttime=1500 reach=read,error
// @entry: E_build time=250 ttime=1800 reach=built,error
// @entry: E_escape time=150 ttime=900 reach=built,read
// @bound: every file of up to 4 (thorough 6) bytes below 0x80; up to 3 (4) such bytes in each of 33 places of makefiles that use every construct (dependency lines, commands, inline files, directives, conditions, includes, macros, substitutions, inference rules, dot directives); up to 6 (8) characters out of 7 sets of characters with a meaning; up to 3 (4) bytes in commands and dependents that are expanded and run; up to 3 (5) tokens around the internal marker character in UTF-8 files
// @outside: bytes from 0x80 on except for the marker, UTF-16 files, deeply nested texts that exhaust the stack, longer texts
#include "hsched.h"
#include <QtCore/QDir>
static void s_started(const QString &c, int) { int at = c.indexOf(rt_cwd() + QLatin1String("/tmp/")); rt_observe("start", at < 0 ? c : c.left(at) + c.mid(at + rt_cwd().size())); if (w_procs().size() > 20) sym_assume(0); }
static void s_ended(const QString &, bool) {}
extern "C" int h_system(const char *c) { rt_observe("system", QByteArray(c)); return 1; }
struct Job { QByteArray text; bool build; };
static void body(void *p)
{
    Job *j = (Job *)p; Mk mk; bool ok = mk.read(j->text); sym_observe_int("ok", ok); if (!ok) { rt_observe("error", mk.err); sym_reach("error"); sym_assert(!mk.err.isEmpty(), "an error has a message"); }
    else { sym_reach("read"); DescriptionBlock *b = mk.m->firstTarget(); observeTarget(b); if (j->build && b) { s_eager = true; sym_observe_int("code", s_build(mk, 1)); sym_reach("built"); } }
    mk.m->clear(); delete mk.m;
}
static void run(const QByteArray &text, bool build) { Job j = { text, build }; int x = rt_run(body, &j); if (x >= 0) { sym_observe_int("exit", x); sym_reach("error"); sym_assert(x == 2 || x == 128, "an exit has one of the documented codes"); } }
static QByteArray any(const char *n, int len) { QByteArray s; for (int i = 0; i < len; ++i) { uint8_t c = rt_byte(n); sym_assume(c < 0x80); s += (char)c; } return s; }
extern "C" void E_any() { run(any("c", rt_choose("n", TIER == 2 ? 7 : 5)), false); }
// arbitrary bytes in every place of the grammar
static const char *const PLACE[][2] = {
    { "tt: ", "\n\tx\n" }, { "tt", ": dd\n\tx\n" }, { "tt:\n\t", "\n" }, { "tt: ; ", "\n\ty\n" }, { "!", " 1\n!endif\ntt:\n" }, { "!if ", "\n!endif\ntt:\n" }, { "!include ", "\ntt:\n" }, { "include f", "\ntt:\n" },
    { "V=a", "b\nW=$(V)\ntt:\n\t$(W)\n" }, { "", "=b\ntt:\n" }, { "V=abc\ntt:\n\tx $(V", ")\n" }, { "V=abc\ntt:\n\tx $(V:", ")\n" }, { "V=abc\ntt:\n\tx $(V:a=", ")\n" }, { "tt:\n\tx <<", "\nabc\n<<\n" }, { "tt:\n\tx <<\na", "\n<<\n" }, { "tt:\n\tx <<\nabc\n<<", "\n" },
    { ".a", ".b:\n\tx\ntt:\n" }, { "{", "}.a.b:\n\tx\ntt:\n" }, { ".SUFFIXES", ".x\ntt:\n" }, { ".PRECIOUS:", "\ntt:\n" }, { "!if \"a\" == \"", "\n!endif\ntt:\n" }, { "!if [", "]\n!endif\ntt:\n" }, { "!if 0\n", "\n!else\n!endif\ntt:\n" }, { "!ifdef V", "\n!else ", }, { "tt: a\\\n", "\n\tx\n" }, { "tt: $", "d\n\tx\n" }, { "!undef ", "\ntt:\n" },
    { "!if defined(", ") 1\n!endif\ntt:\n" }, { "tt: .SYNC ", ".SYNC\n" }, { "!error", "\n" }, { "!else", "\n!endif\n" }, { "dd::x\ndd", ":\n" }, { "tt: f*", "\n" }, { "\"tt", "\": \"\"\n" } };
extern "C" void E_place() { int n = sizeof(PLACE) / sizeof(*PLACE), k = rt_choose("place", n), m = rt_choose("n", TIER == 2 ? 5 : 4); rt_file("f", "M=1\n"); rt_file("fa", "M=1\n"); run(QByteArray(PLACE[k][0]) + any("c", m) + PLACE[k][1], false); }
// longer texts over the characters with a meaning
extern "C" void E_fold()
{
    static const char *const ALPHA[] = { "a:\n\t;#\\", "a=$()@\n", "!a \n\"#^", "a<\n\t \"K", ".a{}:\n", "$(:=a)*", "a \"$@<?*" }; static const char *const PRE[] = { "", "", "!", "tt:\n\tx <<", ".a", "V=aa\ntt:\n\t$(V", "tt: " }; static const char *const POST[] = { "", "", "\n!endif\n", "\nx\n<<\n", ".b:\n\tx\n", "\n", "\n\tx\n" };
    int k = rt_choose("set", 7), n = rt_choose("n", TIER == 2 ? 9 : 7); rt_file("a", "x"); run(QByteArray(PRE[k]) + rt_bytes("c", ALPHA[k], n) + POST[k], false);
}
// commands and dependents are also expanded when they are run
extern "C" void E_build()
{
    static const char *const PL[][2] = { { "tt: a\n\t@r ", "x\n" }, { "tt: a\n\t", "\n" }, { "tt: a ", "\n\t@r $**\n" }, { "tt: a\n\t@r $(@", ")\n" }, { "tt: a\n\t@r <<", "\n$@ $?\n<<\n" }, { ".SUFFIXES: .x\n.x.y:\n\t@r ", "$<\ntt.y:\n" } , { "tt: a\n\t@r <<\n", "\n<<KEEP\n" }, { "tt: a\n\t@cd ", "\n\t@r\n" }, { "tt: a\n\t@set ", "\n\t@r\n" }, { "tt: a\n\t!@r $", "\n" } };
    int k = rt_choose("place", 10), n = rt_choose("n", TIER == 2 ? 5 : 4); rt_file("a", "x"); rt_file("tt.x", "x"); QByteArray s = any("c", n); run(QByteArray(PL[k][0]) + s + PL[k][1], true);
}
// the character that marks file name macros internally, in an UTF-8 file
extern "C" void E_escape()
{
    static const char *const T[] = { "\xef\xbb\xbf", "(", ")", "@", "<", "D", "$", "*", "x" }; static const char *const PL[][2] = { { "tt: a\n\t@r ", "\n" }, { "tt: ", "\n\t@r\n" }, { "", ":\n\t@r\n" }, { "V=", "\ntt:\n\t@r $(V)\n" }, { "tt: a\n\t@r <<\n", "\n<<\n" } };
    int k = rt_choose("place", 5), n = rt_choose("n", TIER == 2 ? 6 : 4); QByteArray s; for (int i = 0; i < n; ++i) s += T[rt_choose("token", 9)]; rt_file("a", "x"); run(QByteArray("\xef\xbb\xbf") + PL[k][0] + s + PL[k][1], true);
}
