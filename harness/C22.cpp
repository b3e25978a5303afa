// @entry: E_lookup time=150 ttime=900 reach=found,bycase,byslash,none
// @entry: E_two time=150 ttime=900 reach=same,different
// @entry: E_redefine time=100 ttime=600 reach=same,different,quoted
// @entry: E_depend time=100 ttime=600 reach=built,file,quoted
// @entry: E_goal time=100 ttime=600 reach=found,unknown
// @entry: E_first time=100 ttime=600 reach=default
// @bound: names of up to 3 (thorough 5) arbitrary Latin-1 characters looked up by names of up to 3 (5) arbitrary Latin-1 characters; two targets out of such names; makefiles with 2 definitions, dependents and goals spelled with any letters out of { a A b B . - / \ blank } of up to 3 (4) characters after a fixed one, with and without quotes; makefiles of up to 4 statements before and after the first target
// @outside: letters outside Latin-1; targets written with slashes and looked up with backslashes, which only the Windows build normalises; quotes inside names; targets defined with the directory of the makefile in front; dependents that end with a backslash at the end of a line
#include "hsched.h"
static int g_started; static QByteArray g_cmds;
static void s_started(const QString &cmd, int) { ++g_started; g_cmds += cmd.toLatin1() + ";"; rt_observe("start", cmd); }
static void s_ended(const QString &, bool) {}
static QString name(const char *n, int len) { QString s; for (int i = 0; i < len; ++i) s += QChar((ushort)rt_byte(n)); return s; }
static uint16_t low(uint16_t c) { return (((c >= 'A') & (c <= 'Z')) | ((c >= 0xc0) & (c <= 0xde) & (c != 0xd7))) ? (uint16_t)(c + 32) : c; }
static QString fold(const QString &s, bool slash) { QString r; for (int i = 0; i < s.size(); ++i) { uint16_t c = low(s.at(i).unicode()); uint16_t d = (uint16_t)((slash & (c == '/')) ? '\\' : c); r += QChar(d); } return r; }
static bool matches(const QString &def, const QString &use) { QString d = fold(def, false); return rt_eq(d, fold(use, false)) | rt_eq(d, fold(use, true)); }
extern "C" void E_lookup()
{
    int max = TIER == 2 ? 6 : 4; QString d = name("d", rt_choose("dl", max)), u = name("u", rt_choose("ul", max)); Makefile m(QString(R_("mf")));
    DescriptionBlock *b = new DescriptionBlock(&m); b->setTargetName(d); m.append(b); sym_assert(m.firstTarget() == b, "the first target is the default one");
    DescriptionBlock *f = m.target(u); bool want = matches(d, u);
    sym_observe_int("found", f != nullptr); sym_assert((f != nullptr) == want, "a target is found by the spellings of its name and by no other"); if (f) sym_assert(f == b, "the target found is the one defined");
    if (want) { sym_reach("found"); if (!rt_eq(d, u)) { if (rt_eq(fold(d, false), fold(u, false))) sym_reach("bycase"); else sym_reach("byslash"); } } else sym_reach("none");
}
extern "C" void E_two()
{
    int max = TIER == 2 ? 4 : 3; QString a = name("a", 1 + rt_choose("al", max - 1)), c = name("c", 1 + rt_choose("cl", max - 1)), u = name("u", 1 + rt_choose("ul", max - 1)); Makefile m(QString(R_("mf")));
    if (rt_eq(fold(a, false), fold(c, false))) { sym_reach("same"); return; }
    DescriptionBlock *b = new DescriptionBlock(&m), *e = new DescriptionBlock(&m); b->setTargetName(a); m.append(b); e->setTargetName(c); m.append(e);
    DescriptionBlock *f = m.target(u); bool exact = rt_eq(fold(u, false), fold(a, false)), exactC = rt_eq(fold(u, false), fold(c, false)); sym_reach("different");
    if (exact) sym_assert(f == b, "the target spelled like this is found"); else if (exactC) sym_assert(f == e, "the target spelled like this is found");
    else if (matches(a, u)) sym_assert(f == b, "the other spelling finds the target"); else if (matches(c, u)) sym_assert(f == e, "the other spelling finds the target"); else sym_assert(f == nullptr, "no other name finds a target");
    sym_assert(m.firstTarget() == b, "the first target is the default one");
}
// ---- through makefiles
static QByteArray spelled(const char *n, const char *set, int max, bool quoted) { QByteArray s = "xy" + rt_bytes(n, set, rt_choose("len", max)); if (quoted) s = "\"" + s + "\""; return s; }
static QByteArray bare(const QByteArray &s) { return s.startsWith('"') ? s.mid(1, s.size() - 2) : s; }
static QString str(const QByteArray &s) { return QString::fromLatin1(s); }
static const int MAXN = TIER == 2 ? 5 : 4;
static void names(QByteArray &d, QByteArray &u, bool goal = false)
{
    bool qd = rt_bool("qd"), qu = goal ? false : rt_bool("qu"); d = spelled("d", qd ? "aB\\ " : "aB\\", MAXN, qd); u = spelled("u", goal || qu ? "aAb/\\ " : "aAb/\\", MAXN, qu); if (qd || qu) sym_reach("quoted");
    sym_assume(d.size() - (qd ? 2 : 0) == u.size() - (qu ? 2 : 0)); if (qd && d.size() > 4) { sym_assume(d.at(d.size() - 2) != ' '); } if (!qu && goal && u.size() > 2) sym_assume(u.at(u.size() - 1) != ' ');
    if (qu && u.size() > 4) sym_assume(u.at(u.size() - 2) != ' ');
}
extern "C" void E_redefine()
{
    QByteArray d, u; names(d, u); Mk mk; sym_assert(mk.read(d + ": da\n" + u + ": db\n\trun\n"), "the makefile is read");
    bool same = matches(str(bare(d)), str(bare(u))); DescriptionBlock *b = mk.m->firstTarget(); sym_assert(b == mk.m->target(str(bare(d))), "the first target is the default one"); observeTarget(b); sym_observe_int("same", same);
    sym_assert(rt_eq(b->targetName(), str(bare(d))), "the target has the name it was first given");
    QList<QByteArray> dep; dep << "da"; if (same) dep << "db"; sym_assert(sameList(b->m_dependents, dep), "defining a target again by another spelling adds to it, another name does not"); sym_assert(b->m_commands.size() == (same ? 1 : 0), "commands belong to the target whose name is spelled");
    DescriptionBlock *e = mk.m->target(str(bare(u))); sym_assert(e != nullptr && (e == b) == same, "both spellings find the target"); sym_reach(same ? "same" : "different");
    if (!same) sym_assert(e->m_commands.size() == 1 && e->m_dependents.size() == 1, "another name is another target");
}
struct Goal { Mk *mk; QStringList goal; int code; };
static void runBuild(void *p) { Goal *r = (Goal *)p; r->code = s_build(*r->mk, 1, r->goal); }
extern "C" void E_depend()
{
    QByteArray d, u; names(d, u); sym_assume(u.at(u.size() - 1) != 0x5c); bool same = matches(str(bare(d)), str(bare(u))), late = rt_bool("late"); QByteArray def = d + ":\n\trun\n", use = "all: " + u + "\n\tmain\n";
    Mk mk; QStringList goal(QString(R_("all"))); sym_assert(mk.read(late ? use + def : def + use, goal), "the makefile is read"); Goal r = { &mk, goal, -1 }; int x = rt_run(runBuild, &r), c = x >= 0 ? x : r.code;
    if (same) { sym_assert(c == 0 && g_cmds == "run;main;", "a dependent spelled differently is the target"); sym_reach("built"); }
    else { sym_assert(c != 0 && g_started == 0, "a dependent with another name is not the target"); sym_reach("file"); }
}
extern "C" void E_goal()
{
    QByteArray d, u; names(d, u, true); bool same = matches(str(bare(d)), str(u)); Mk mk; QStringList goal(str(u)); bool ok = mk.read("all:\n\tmain\n" + d + ":\n\trun\n", goal);
    sym_assert(ok == same, "a goal is found by the spellings of its name and by no other"); if (!ok) { sym_reach("unknown"); return; } sym_reach("found");
    sym_assert(s_build(mk, 1, goal) == 0 && g_cmds == "run;", "the goal is built");
}
extern "C" void E_first()
{
    static const char *const S[] = { "MM=1\n", ".SUFFIXES:\n", ".SILENT:\n", ".IGNORE:\n", ".PRECIOUS: zz\n", ".xa.xb:\n\trule\n", "# xx: yy\n", ".NOTPARALLEL:\n", "{sub}.xa.xb::\n\trule\n", "!if 0\nhid:\n\thidden\n!endif\n" };
    static const char *const F[] = { "t1:\n\tone\n", "t1 t2:\n\tone\n", "T1: t3\n\tone\n", "$(V):\n\tone\n", "\"t1\":\n\tone\n", ".t1:\n\tone\n" };
    int n = rt_choose("before", TIER == 2 ? 4 : 3), f = rt_choose("first", 6); QByteArray t = "V=t1\n"; for (int i = 0; i < n; ++i) t += S[rt_choose("stmt", 10)]; t += F[f]; t += "t3:\n\tthree\nt0:\n\tzero\n"; if (rt_bool("again")) t += f == 5 ? ".t1: t3\n" : "t1: t3\n";
    bool goal = rt_bool("goal"); QStringList g; if (goal) g << QString(R_("t0")); Mk mk; sym_assert(mk.read(t, g), "the makefile is read"); DescriptionBlock *b = mk.m->firstTarget(); sym_assert(b != nullptr, "there is a default target"); observeTarget(b);
    sym_assert(b->targetName().compare(QString(R_(f == 5 ? ".t1" : "t1")), Qt::CaseInsensitive) == 0, "the first target of the makefile is the default one");
    bool dep = b->m_dependents.size() >= 1; sym_assert(s_build(mk, 1, g) == 0, "the build succeeds"); sym_assert(g_cmds == (goal ? "zero;" : dep ? "three;one;" : "one;"), "without goals the default target is built, otherwise only the goals"); sym_reach("default");
}
