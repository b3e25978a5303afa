// @entry: E_block time=150 ttime=1200 reach=twice,path,root,added,empty
// @entry: E_values time=100 ttime=600 reach=ok
// @entry: E_set time=150 ttime=900 reach=set,replaced,parallel
// @entry: E_macros time=60 ttime=300 reach=ok
// @bound: environments built by up to 3 (thorough 4) insertions of names over { a b A B ab AB Path PATH path SystemRoot SYSTEMROOT } with values of up to 2 arbitrary characters, with and without a search path and system root of jom; up to 3 values of up to 6 arbitrary characters and names of up to 3 arbitrary characters; builds of 3 targets with 1 to 2 jobs whose commands set variables; macros from the command line and the makefile
// @outside: empty names, names that contain =, values with NUL, more variables
#include "hsched.h"
#include "jomprocess.h"
static void s_started(const QString &, int);
static void s_ended(const QString &, bool) {}
struct Var { QString name, value; };
static bool same(const QString &a, const QString &b) { return a.compare(b, Qt::CaseInsensitive) == 0; }
static QList<Var> parse(const WProc &p)
{
    QList<Var> l; int n = p.env.size() / 2, i = 0; auto at = [&p](int k) { return QChar((ushort)((uchar)p.env.at(2 * k) | ((uchar)p.env.at(2 * k + 1) << 8))); };
    sym_assert(n >= 1 && at(n - 1).unicode() == 0, "each variable ends with a NUL");
    while (i < n) { Var v; int k = i; while (at(k) != QLatin1Char('=') || k == i) { sym_assert(at(k).unicode() != 0, "each entry has the form NAME=VALUE"); v.name += at(k); ++k; } ++k; while (at(k).unicode() != 0) v.value += at(k++); l.append(v); i = k + 1; }
    return l;
}
static void put(QList<Var> &l, const QString &name, const QString &value) { for (Var &v : l) if (same(v.name, name)) { v.value = value; return; } Var v = { name, value }; l.append(v); }
static bool has(const QList<Var> &l, const char *name) { for (const Var &v : l) if (same(v.name, QString(R_("")) + R_(name))) return true; return false; }
static void complete(QList<Var> &l)
{
    static const char *const N[] = { "PATH", "SystemRoot" };
    for (const char *n : N) if (!has(l, n) && !rt_getenv(n).isEmpty()) { put(l, QString(R_("")) + R_(n), rt_getenv(n)); sym_reach("added"); }
}
static void compare(const QList<Var> &got, const QList<Var> &want)
{
    sym_observe_int("n", got.size()); sym_assert(got.size() == want.size(), "every variable is passed exactly once, and nothing else");
    for (const Var &w : want) { int found = 0; for (const Var &g : got) if (same(g.name, w.name)) { ++found; sym_assert(rt_eq(g.value, w.value), "a variable has the value it was given last"); } sym_assert(found == 1, "every variable is passed exactly once, and nothing else"); }
}
static const char *const NAMES[] = { "a", "b", "A", "B", "ab", "AB", "Path", "PATH", "path", "SystemRoot", "SYSTEMROOT" };
static QString value(int n) { QString v; for (int i = 0; i < n; ++i) { uint16_t c = (uint16_t)sym_new("c", 16); sym_assume(c != 0); v += QChar(c); } return v; }
extern "C" void E_block()
{
    int n = 1 + rt_choose("n", TIER == 2 ? 4 : 3); bool p = rt_bool("p"), r = rt_bool("r"); if (p) rt_setenv("PATH", "/jom/bin"); if (r) rt_setenv("SystemRoot", "/win");
    ProcessEnvironment env; QList<Var> want; for (int i = 0; i < n; ++i) { const char *k = NAMES[rt_choose("name", 11)]; QString name = QString(R_("")) + R_(k), v = value(rt_choose("len", i ? 2 : 3)); if (has(want, k)) sym_reach("twice"); if (same(name, QString(R_("path")))) sym_reach("path"); if (same(name, QString(R_("systemroot")))) sym_reach("root"); if (v.isEmpty()) sym_reach("empty"); env.insert(name, v); put(want, name, v); }
    Process q; q.setEnvironment(env); if (has(want, "path")) { QString path; for (const Var &v : want) if (same(v.name, QString(R_("path")))) path = v.value; sym_assert(rt_eq(rt_getenv("PATH"), path), "a search path given to commands is used to find them, too"); } else sym_assert(rt_getenv("PATH") == QString(R_("")) + R_(p ? "/jom/bin" : ""), "jom's search path is kept"); complete(want);
    q.start(QString(R_("prog"))); sym_assert(w_procs().size() == 1 && w_procs().first().hasEnv, "the environment is passed"); compare(parse(w_procs().first()), want); w_end(0, 0);
}
extern "C" void E_values()
{
    ProcessEnvironment env; QList<Var> want; int n = 1 + rt_choose("n", 3); static const char *const P[] = { "x", "y", "z" };
    for (int i = 0; i < n; ++i) { QString name = QString(R_("")) + R_(P[i]); int m = rt_choose("more", 3); for (int k = 0; k < m; ++k) { uint16_t c = (uint16_t)sym_new("nc", 16); sym_assume((c != 0) & (c != '=')); name += QChar(c); } QString v = value(i ? 1 : rt_choose("len", 7)); env.insert(name, v); Var x = { name, v }; want.append(x); }
    Process q; q.setEnvironment(env); q.start(QString(R_("prog"))); sym_assert(w_procs().size() == 1 && w_procs().first().hasEnv, "the environment is passed");
    QList<Var> got = parse(w_procs().first()); sym_assert(got.size() == n, "every variable is passed exactly once, and nothing else");
    for (int i = 0; i < n; ++i) sym_assert(rt_eq(got.at(i).name, want.at(i).name) && rt_eq(got.at(i).value, want.at(i).value), "names and values are passed unchanged"); w_end(0, 0); sym_reach("ok");
}
// ---- builds whose commands set variables
static QList<Var> g_env; static QList<QList<Var>> g_snap; static bool setDone[3]; static const char *setName[3], *setValue[3]; static bool sets[3];
static int who(const QString &cmd) { return cmd.at(cmd.size() - 1).unicode() - 'a'; }
static void s_started(const QString &cmd, int running)
{
    int t = who(cmd); if (t < 0 || t > 2) return; if (running > 1) sym_reach("parallel"); if (sets[t] && !setDone[t]) { setDone[t] = true; sym_reach(has(g_env, setName[t]) ? "replaced" : "set"); put(g_env, QString(R_("")) + R_(setName[t]), QString(R_("")) + R_(setValue[t])); }
    g_snap.append(g_env);
}
static void inherit(Mk &mk, const char *name) { ProcessEnvironment e; e.insert(QString(R_("")) + R_(name), QString(R_("old"))); e.insert(QString(R_("Path")), QString(R_("/p"))); mk.mt->setEnvironment(e); mk.mt->defineEnvironmentMacroValue(QString(R_("")) + R_(name), QString(R_("old"))); }
extern "C" void E_set()
{
    static const char *const SN[] = { "VV", "vv", "WW", "inh" }; static const char *const SV[] = { "1", "two three", "" };
    QByteArray t = "tt: ta tb tc\n"; for (int i = 0; i < 3; ++i) { sets[i] = rt_bool("sets"); t += QByteArray("t") + (char)('a' + i) + ":\n"; if (sets[i]) { setName[i] = SN[rt_choose("name", 4)]; setValue[i] = SV[i == 0 ? rt_choose("value", 3) : i - 1]; t += QByteArray("\t@set ") + setName[i] + "=" + setValue[i] + "\n"; } t += QByteArray("\t@run ") + (char)('a' + i) + "\n"; }
    rt_setenv("PATH", "/jom/bin"); Mk mk; inherit(mk, "INH"); sym_assert(mk.read(t), "the makefile is read");
    put(g_env, QString(R_("INH")), QString(R_("old"))); put(g_env, QString(R_("Path")), QString(R_("/p"))); put(g_env, QString(R_("_JOMSRVKEY_")), QString(R_("key")));
    s_eager = true; sym_assert(s_build(mk, 1 + rt_choose("jobs", 2)) == 0, "the build succeeds"); sym_assert(w_procs().size() == 3 && g_snap.size() == 3, "every command is run");
    for (int i = 0; i < 3; ++i) { sym_assert(w_procs().at(i).hasEnv, "the environment is passed"); compare(parse(w_procs().at(i)), g_snap.at(i)); }
}
extern "C" void E_macros()
{
    bool cl = rt_bool("cl"), redef = rt_bool("redef"); Mk mk; inherit(mk, "Inh");
    if (cl) { mk.mt->defineCommandLineMacroValue(QString(R_("cmdl")), QString(R_("x y")));}
    sym_assert(mk.read(QByteArray(redef ? "INH=new\n" : "") + "OWN=1\ntt:\n\t@run a\n"), "the makefile is read"); sym_assert(s_build(mk, 1) == 0 && w_procs().size() == 1, "the build succeeds");
    QList<Var> w; put(w, QString(R_("inh")), QString(R_("")) + R_(redef ? "new" : "old")); put(w, QString(R_("path")), QString(R_("/p"))); put(w, QString(R_("_JOMSRVKEY_")), QString(R_("key"))); if (cl) put(w, QString(R_("cmdl")), QString(R_("x y")));
    compare(parse(w_procs().first()), w); sym_reach("ok");
}
