// @entry: E_flags time=200 ttime=1500 reach=silent,printed,ignored,failed,rule,double,inline
// @entry: E_suffixes time=150 ttime=900 reach=first,second,none,cleared
// @entry: E_precious time=100 ttime=600 reach=some,twice
// @entry: E_unknown time=100 ttime=600 reach=target,directive
// @bound: makefiles of 4 (thorough 5) statements out of directives (the first in 9 forms), targets with indented and inline commands, :: blocks and inference rules, with and without the ignore option; two .SUFFIXES lines with texts of up to 5 (6) characters over { . a b blank TAB # }; .PRECIOUS lines with texts of up to 5 (6) characters over { a b blank TAB }; every name that differs from one of the four directives in one letter
// @outside: quoted names in directives, other suffixes, directives between a dependency line and its commands
#include "hsched.h"
static void s_started(const QString &c, int) { rt_observe("start", c); }
static void s_ended(const QString &, bool) {}
static uint32_t one(const QString &) { return 1; }
static const char *const D[] = { ".SILENT:", ".IGNORE:", ".SILENT :", ".IGNORE \t :", ".SILENT: tt", "$(SIL):", "$(IGN)", ".IGNORE:#c", ".PRECIOUS: tt" };
static const int EFFECT[] = { 1, 2, 1, 2, 1, 1, 2, 2, 0 };
extern "C" void E_flags()
{
    int n = TIER == 2 ? 5 : 4, goal = rt_choose("goal", 3); bool opt = rt_bool("opt"); QByteArray t = "SIL=.SILENT\nIGN=.IGNORE :\n.SUFFIXES: .xa\n"; int state = opt ? 2 : 0; QList<int> want; QList<QByteArray> text; bool rule = false; int id = 0, dirs = 0;
    for (int i = 0; i < n; ++i) {
        int k = rt_choose("stmt", i == 0 ? 6 : 5);
        if (k == 0) { int d = rt_choose("dir", dirs++ ? 2 : 9); t += QByteArray(D[d]) + "\n"; state |= EFFECT[d]; continue; }
        if (k == 5) continue;
        QByteArray c = "run " + QByteArray::number(id++); bool mine = false;
        if (k == 1) { bool g = goal == 0 && want.isEmpty(); t += QByteArray(g ? "tt" : "o" + QByteArray::number(i) + "x") + ":\n\t" + c + "\n"; mine = g; }
        if (k == 2) { bool g = goal == 0 && want.isEmpty(); t += QByteArray(g ? "tt" : "o" + QByteArray::number(i) + "x") + ": ; " + c + "\n"; mine = g; if (g) sym_reach("inline"); }
        if (k == 3) { t += QByteArray(goal == 1 ? "tt" : "dd") + "::\n\t" + c + "\n"; mine = goal == 1; if (want.size() == 1 && mine) sym_reach("double"); }
        if (k == 4) { if (rule) return; rule = true; t += ".xa.yy:\n\t" + c + "\n"; mine = goal == 2; if (mine) sym_reach("rule"); }
        if (mine) { want.append(state); text.append(c); }
    }
    if (want.isEmpty()) return;
    rt_file("tt.xa", "x"); t += "tt.yy:\n"; Mk mk; mk.o->stopOnErrors = !opt; QStringList g(QString(R_("")) + R_(goal == 2 ? "tt.yy" : "tt")); sym_assert(mk.read(t, g), "the makefile is read");
    s_exitCode = one; int code = s_build(mk, 1, g); QByteArray out; int runs = 0; bool failed = false;
    for (int i = 0; i < want.size() && !failed; ++i) { ++runs; if (!(want.at(i) & 1)) { out += "\t" + text.at(i) + "\n"; sym_reach("printed"); } else sym_reach("silent"); if (!(want.at(i) & 2)) failed = true; else sym_reach("ignored"); }
    if (failed) sym_reach("failed");
    sym_assert(w_procs().size() == runs && (code != 0) == failed, ".IGNORE applies to the commands read after it and to none before"); rt_observe("out", rt_stdout()); sym_assert(rt_eqb(rt_stdout(), out), ".SILENT applies to the commands read after it and to none before");
}
static QList<QByteArray> tokens(const QByteArray &s) { QList<QByteArray> l; QByteArray c; for (int i = 0; i <= s.size(); ++i) { char x = i < s.size() ? s.at(i) : '#'; if (x == ' ' || x == '\t' || x == '#') { if (!c.isEmpty()) l.append(c); c.clear(); if (x == '#') break; } else c += x; } return l; }
extern "C" void E_suffixes()
{
    int m = TIER == 2 ? 6 : 5; QByteArray t; QList<QByteArray> list; if (rt_bool("clear")) t += ".SUFFIXES:\n";
    for (int i = 0; i < 2; ++i) { int n = rt_choose("n", i ? 3 : m + 1); QByteArray s = rt_bytes("c", ".ab \t#", n); QList<QByteArray> k = tokens(s); t += QByteArray(i ? ".SUFFIXES :" : ".SUFFIXES:") + s + "\n"; if (k.isEmpty()) { list.clear(); sym_reach("cleared"); } else list += k; }
    QByteArray want; for (int i = 0; i < list.size() && want.isEmpty(); ++i) { if (list.at(i) == ".a") want = "ra"; else if (list.at(i) == ".b") want = "rb"; }
    rt_file("tt.a", "x"); rt_file("tt.b", "x"); t += ".a.yy:\n\tra\n.b.yy:\n\trb\ntt.yy:\n"; Mk mk; sym_assert(mk.read(t), "the makefile is read"); sym_assert(s_build(mk, 1) == 0, "the build succeeds");
    sym_assert(w_procs().size() == (want.isEmpty() ? 0 : 1), "rules apply iff their suffix is listed"); if (want.isEmpty()) { sym_reach("none"); return; } sym_assert(rt_eq(w_procs().first().cmd, QString::fromLatin1(want)), "the rule with the suffix listed first applies"); sym_reach(want == "ra" ? "first" : "second");
}
extern "C" void E_precious()
{
    int m = TIER == 2 ? 6 : 5; QList<QByteArray> want; QByteArray t;
    for (int i = 0; i < 2; ++i) { int n = rt_choose("n", i ? 3 : m + 1); QByteArray s = rt_bytes("c", "ab \t", n); t += QByteArray(i ? ".PRECIOUS :" : ".PRECIOUS:") + s + "\n"; for (const QByteArray &k : tokens(s)) if (!want.contains(k)) want.append(k); else sym_reach("twice"); }
    Mk mk; sym_assert(mk.read(t + "tt:\n\trun\n"), "the makefile is read"); for (const QString &s : mk.m->preciousTargets()) rt_observe("precious", s); sym_assert(sameList(mk.m->preciousTargets(), want), ".PRECIOUS collects its targets"); if (want.size()) sym_reach("some");
}
extern "C" void E_unknown()
{
    static const char *const N[] = { ".SILENT", ".IGNORE", ".SUFFIXES", ".PRECIOUS" }; int d = rt_choose("dir", 4); QByteArray name = N[d]; int k = rt_choose("pos", name.size() + 1); bool mod = k > 0;
    if (mod) { bool longer = k == name.size(); uint8_t c = rt_byte("c"); sym_assume(((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')) | ((c >= '0') & (c <= '9')) | (c == '_')); if (longer) name += (char)c; else { sym_assume(c != (uint8_t)name.at(k)); name[k] = (char)c; } }
    bool blank = rt_bool("blank"); QByteArray t = name + (blank ? " :" : ":") + " dd\ntt:\n\trun\n"; rt_file("dd", "x"); Mk mk; QStringList g(QString(R_("tt"))); sym_assert(mk.read(t, g), "the makefile is read");
    DescriptionBlock *b = mk.m->target(QString::fromLatin1(name)); rt_observe("name", name); sym_assert((b != nullptr) == mod, "an unknown dot name is an ordinary target and a directive is not"); 
    if (mod) { sym_assert(mk.m->firstTarget() == b && b->m_dependents.size() == 1, "an unknown dot name is an ordinary target"); sym_reach("target"); } else { sym_assert(mk.m->firstTarget() == mk.t("tt"), "a directive is no target"); sym_reach("directive"); }
    sym_assert(mk.m->preciousTargets().size() == (!mod && d == 3 ? 1 : 0), "only .PRECIOUS collects precious targets"); s_exitCode = one; int code = s_build(mk, 1, g); sym_assert((code == 0) == (!mod && d == 1), "only .IGNORE ignores exit codes"); sym_assert(rt_stdout().isEmpty() == (!mod && d == 0), "only .SILENT silences commands");
}
