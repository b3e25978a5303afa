// @entry: E_graph time=200 ttime=1500 reach=cycle,acyclic
// @entry: E_active time=100 ttime=900 reach=cycle,acyclic,unreachable
// @entry: E_spelled time=60 ttime=600 reach=cycle,acyclic
// @entry: E_sync time=100 ttime=900 reach=cycle,acyclic
// @entry: E_absolute time=60 ttime=600 reach=cycle,acyclic
// @entry: E_double time=60 ttime=600 reach=cycle,acyclic
// @bound: every dependency graph of 3 targets with self loops and of 4 targets without (thorough: 4 targets with self loops), every choice of up to two targets to be built; every graph of 3 targets with names in other letter case, quoted, or given with the directory of the makefile; every .SYNC list of up to 4 (5) dependents over 3 targets together with every graph of the others
// @outside: more than 4 targets, cycles that only come into being through inference rules
#include "mk.h"
struct G { int n; bool e[5][5]; };
static bool reach(const G &g, int a, int b) { bool seen[5] = { false, false, false, false, false }; int st[32], k = 0; for (int j = 0; j < g.n; ++j) if (g.e[a][j] && !seen[j]) { seen[j] = true; st[k++] = j; } while (k) { int x = st[--k]; if (x == b) return true; for (int j = 0; j < g.n; ++j) if (g.e[x][j] && !seen[j]) { seen[j] = true; st[k++] = j; } } return false; }
static bool cyclicFrom(const G &g, int a) { for (int j = 0; j < g.n; ++j) if ((j == a || reach(g, a, j)) && reach(g, j, j)) return true; return false; }
static QByteArray nm(int i) { return QByteArray("t") + (char)('a' + i); }
static void decide(Mk &mk, const QByteArray &text, const QStringList &act, bool cyc)
{
    bool ok = mk.read(text, act);
    if (cyc) { sym_assert(!ok, "a cycle is reported"); sym_assert(mk.err.contains(R_("cycle")), "the error names the cycle"); sym_reach("cycle"); }
    else { sym_assert(ok, "a makefile without cycle is accepted"); sym_reach("acyclic"); }
}
static G graph(int n, bool self) { G g; g.n = n; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) g.e[i][j] = (self || i != j) ? rt_bool("e") : false; return g; }
static int g_cmds;
static QByteArray text(const G &g, QByteArray (*name)(int, int)) { QByteArray t; for (int i = 0; i < g.n; ++i) { t += name(i, -1) + (g_cmds == 2 ? ":" : ": file"); for (int j = 0; j < g.n; ++j) if (g.e[i][j]) t += " " + name(j, i); t += "\n"; if (g_cmds) t += "\tcmd\n"; } return t; }
static QByteArray plain(int i, int) { return nm(i); }
extern "C" void E_graph()
{
    bool four = rt_bool("four"); g_cmds = rt_choose("commands", 3); G g = graph(four ? 4 : 3, !four || TIER == 2); Mk mk; decide(mk, text(g, plain), QStringList(), cyclicFrom(g, 0));
}
extern "C" void E_active()
{
    G g = graph(3, TIER == 2); int a = rt_choose("a", 3), b = rt_choose("b", 4); QStringList act; act << QString::fromLatin1(nm(a)); g_cmds = rt_choose("commands", 3); if (b < 3) act << QString::fromLatin1(nm(b));
    bool c = cyclicFrom(g, a) || (b < 3 && cyclicFrom(g, b)); if (!c) for (int i = 0; i < 3; ++i) if (reach(g, i, i)) { sym_reach("unreachable"); break; }
    Mk mk; decide(mk, text(g, plain), act, c);
}
static int g_style;
static QByteArray spelled(int i, int from)
{
    QByteArray n = nm(i); if (from < 0) return n;
    switch (g_style) { case 0: return n.toUpper(); case 1: return "T" + n.mid(1); default: return "\"" + n + "\""; }
}
extern "C" void E_spelled() { G g = graph(3, true); g_style = rt_choose("style", 3); g_cmds = rt_choose("commands", 3); Mk mk; decide(mk, text(g, spelled), QStringList(), cyclicFrom(g, 0)); }
extern "C" void E_sync()
{
    // ta depends on a list with synchronisation points; the others on each other
    G g = graph(3, false); for (int j = 0; j < 3; ++j) g.e[0][j] = false;
    int n = rt_choose("n", TIER == 2 ? 6 : 5); QByteArray l; G h = g; QList<int> before; bool seen[3] = { false, false, false };
    QList<int> cur;
    for (int i = 0; i < n; ++i) {
        int k = rt_choose("k", 3);
        if (k == 2) { l += " .SYNC"; before += cur; cur.clear(); continue; }
        if (seen[k + 1]) return; seen[k + 1] = true;
        l += " " + nm(k + 1); h.e[0][k + 1] = true; for (int b : before) h.e[k + 1][b] = true; cur.append(k + 1);
    }
    QByteArray t = "ta:" + l + "\n"; for (int i = 1; i < 3; ++i) { t += nm(i) + ":"; for (int j = 0; j < 3; ++j) if (g.e[i][j]) t += " " + nm(j); t += "\n"; }
    Mk mk; decide(mk, t, QStringList(), cyclicFrom(h, 0));
}
// names with and without the directory of the makefile
static int g_full;
static QByteArray full(int i) { return QFile::encodeName(rt_cwd()) + "/" + nm(i); }
static QByteArray absolute(int i, int from) { bool f = (g_full >> i) & 1; if (from < 0) return f ? full(i) : nm(i); return nm(i); }
extern "C" void E_absolute() { G g = graph(3, true); g_full = rt_choose("full", 8); Mk mk; decide(mk, text(g, absolute), QStringList(), cyclicFrom(g, 0)); }
// the edges of a target may come from several blocks
extern "C" void E_double()
{
    G g = graph(3, true); bool dbl = rt_bool("dbl"); QByteArray t; Mk mk;
    for (int r = 0; r < 2; ++r) for (int i = 0; i < 3; ++i) { t += nm(i) + (dbl ? "::" : ":"); for (int j = 0; j < 3; ++j) if (g.e[i][j] && ((i + j) & 1) == r) t += " " + nm(j); t += "\n"; }
    decide(mk, t, QStringList(), cyclicFrom(g, 0));
}
