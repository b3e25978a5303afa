// @app: yes
// @entry: E_graph time=150 ttime=1200 reach=tree,dot,shared,goal
// @entry: E_progress time=150 ttime=1200 reach=star,blank,failed
// @entry: E_info time=100 ttime=600 reach=rule,batch,target
// @entry: E_inline time=60 ttime=600 reach=shown,hidden
// @entry: E_dir time=30 ttime=200 reach=both,failed
// @bound: the whole program from main() on; every dependency graph of 4 (thorough 5) nodes, each a plain file or a target, shown as tree and as dot graph for the default goal and every other one; builds with /D of every graph of 3 (4) nodes with arbitrary presence and 64-bit time stamps, one or two jobs, failing commands with /K; /P with every subset of 3 macros, 3 rules and 3 targets with up to 2 dependents and commands; /U with up to two inline files of up to 3 lines; /W with any outcome of the commands
// @outside: the format of time stamps, the order of the entries, the predefined rules and macros in /P, names with characters special to dot, several goals
#include "app.h"
#include "fastfileinfo.h"
static int N; static bool dep[6][6], plain[6]; static int cmds[6]; static bool exists[6]; static QList<QByteArray> ran; static bool g_mayFail, g_anyFailed, failedT[6]; static int g_mode; static QByteArray shown;
static QByteArray nm(int i) { return QByteArray("t") + (char)('a' + i); }
static void checkInline(const WProc &p);
static void a_started(const WProc &p, int) { ran << p.cmd.toLatin1(); if (g_mode == 1) checkInline(p); else rt_observe("run", p.cmd); }
static int a_exitCode(const QString &c) { if (!g_mayFail || !rt_bool("fail")) return 0; g_anyFailed = true; if (c.size() == 5) failedT[c.at(4).unicode() - 'a'] = true; return 1; }
static void a_ended(const QString &c, int) { if (c.size() == 5 && c.at(4).unicode() >= 'a') rt_touch(nm(c.at(4).unicode() - 'a'), true, 0x01cffffffffffff0ull); }
static QStringList env() { return QStringList() << QString(R_("PATH=x")); }
static int run(QList<QByteArray> opts) { ran.clear(); return a_run(a_list(QList<QByteArray>() << "/nologo" << "/f" << "mf" << opts), env()); }
static QList<QByteArray> lines() { QList<QByteArray> r; QByteArray o = rt_stdout(); if (!o.contains(rt_cwd().toLatin1())) rt_observe("out", o); while (!o.isEmpty()) { int k = o.indexOf('\n'); sym_assert(k >= 0, "every line is complete"); r << o.left(k); o = o.mid(k + 1); } return r; }
static QByteArray text() { QByteArray t; for (int i = 0; i < N; ++i) { if (plain[i]) continue; t += nm(i) + ":"; for (int k = 0; k < N; ++k) if (dep[i][k]) t += " " + nm(k); t += "\n"; if (cmds[i]) t += QByteArray("\trun ") + (char)('a' + i) + "\n"; t += "\n"; } return t; }
static int ix(const QByteArray &n) { return n.size() == 2 && n.at(0) == 't' && n.at(1) >= 'a' && n.at(1) < 'a' + N ? n.at(1) - 'a' : -1; }
extern "C" void E_graph()
{
    N = TIER == 2 ? 5 : 4; bool dot = rt_bool("dot"); int goal = 0; for (int i = 0; i < N; ++i) { plain[i] = i && rt_bool("plain"); cmds[i] = i & 1; if (plain[i] || rt_bool("exists")) rt_file(nm(i), "x", true, 5); }
    for (int i = 0; i < N; ++i) if (!plain[i]) for (int k = i + 1; k < N; ++k) dep[i][k] = rt_bool("dep");
    QList<QByteArray> o; o << (dot ? "/dumpgraphdot" : rt_bool("lower") ? "-dumpgraph" : "/DUMPGRAPH"); if (rt_bool("goal")) { goal = 1; if (plain[1]) return; o << nm(1); sym_reach("goal"); }
    if (!goal && rt_bool("second")) { if (plain[1]) return; o << nm(0) << nm(1); }       // the graph of the first goal is shown
    rt_file("mf", text()); int c = run(o); sym_assert(c == 0 && ran.isEmpty(), "nothing is built when the graph is shown");
    bool need[6] = { false }, edge[6][6] = { { false } }; need[goal] = true; for (int i = 0; i < N; ++i) for (int k = 0; k < N; ++k) if (need[i] && dep[i][k]) { if (need[k] && !plain[k]) sym_reach("shared"); need[k] = true; }
    QList<QByteArray> l = lines();
    if (dot) {
        sym_reach("dot"); sym_assert(l.size() >= 2 && l.first() == "digraph G {" && l.last() == "}", "the graph is a dot graph");
        for (int i = 1; i + 1 < l.size(); ++i) { QByteArray s = l.at(i).trimmed(); int a = s.startsWith('"') ? ix(s.mid(1, 2)) : -1, m = s.indexOf("->"), b = m > 0 ? ix(s.mid(m + 4, 2)) : -1; sym_assert(a >= 0 && b >= 0 && s == "\"" + nm(a) + "\" -> \"" + nm(b) + "\";", "every edge is well formed"); edge[a][b] = true; }
    } else {
        sym_reach("tree"); QList<int> stack; sym_assert(!l.isEmpty() && l.at(0) == nm(goal), "the tree starts with the goal");
        for (int i = 0; i < l.size(); ++i) { QByteArray s = l.at(i); int d = 0; while (d < s.size() && s.at(d) == ' ') ++d; int n = ix(s.mid(d)); sym_assert(n >= 0 && d <= stack.size() && (i == 0) == (d == 0), "the tree is well formed"); while (stack.size() > d) stack.removeLast(); if (d) edge[stack.last()][n] = true; stack << n; }
    }
    for (int i = 0; i < N; ++i) for (int k = 0; k < N; ++k) sym_assert(edge[i][k] == (need[i] && dep[i][k] && !plain[k]), "the graph shows exactly the dependencies between the targets that would be built");
}
// ---- /D: the targets as they are considered
extern "C" void E_progress()
{
    N = TIER == 2 ? 4 : 3; bool j2 = rt_bool("j2"), A = rt_bool("all"); g_mayFail = rt_bool("mayfail");
    for (int i = 0; i < N; ++i) { plain[i] = i == N - 1 && rt_bool("plain"); cmds[i] = !plain[i] && (i == 0 || rt_bool("cmd")); exists[i] = plain[i] || rt_bool("exists"); if (exists[i]) { uint64_t a = sym_new("age", 64); sym_assume((a > 0) & (a < 0x01c0000000000000ull)); rt_file(nm(i), "x", true, a); } }
    for (int i = 0; i < N; ++i) if (!plain[i]) for (int k = i + 1; k < N; ++k) dep[i][k] = rt_bool("dep");
    bool need[6] = { true }; for (int i = 0; i < N; ++i) for (int k = 0; k < N; ++k) if (need[i] && dep[i][k]) need[k] = true; for (int i = 0; i < N; ++i) if (!need[i]) return;
    rt_file("mf", text()); QList<QByteArray> o; o << "/D" << (j2 ? "/j2" : "/j1"); if (A) o << "/a"; if (g_mayFail) o << "/k"; int c = run(o); sym_assert((c == 0) == !g_anyFailed, "the exit code tells whether a command failed");
    int n[6] = { 0 }, star[6] = { 0 }, echo[6] = { 0 }; bool order[6]; for (const QByteArray &l : lines()) {
        if (l.startsWith("\trun ")) { int i = l.at(5) - 'a'; ++echo[i]; order[i] = star[i]; continue; }
        int i = ix(l.right(2)); sym_assert(i >= 0 && l.size() >= 4 && l.at(l.size() - 3) == ' ' && (l.at(0) == '*' || l.at(0) == ' '), "every target is shown on a line of its own"); ++n[i]; if (l.at(0) == '*') ++star[i];
    }
    for (int i = 0; i < N; ++i) {
        int r = 0; for (const QByteArray &x : ran) if (x == QByteArray("run ") + (char)('a' + i)) ++r; bool blocked = false; for (int k = 0; k < N; ++k) if (failedT[k]) { bool on[6] = { false }; on[i] = true; for (int a = i; a < N; ++a) for (int b = a + 1; b < N; ++b) if (on[a] && dep[a][b]) on[b] = true; if (k != i && on[k]) blocked = true; }
        if (blocked) { sym_reach("failed"); sym_assert(!r, "targets that depend on a failed one are not built"); continue; }
        sym_assert(n[i] == (plain[i] ? 0 : 1), "every target that is considered is shown once"); if (plain[i]) continue;
        if (cmds[i] && !A) sym_assert((star[i] == 1) == (r == 1), "a target is marked exactly if it is built"); if (r) sym_assert(echo[i] == 1 && order[i] == (star[i] == 1), "a target is shown before its commands"); sym_reach(star[i] ? "star" : "blank");
    }
}
// ---- /P: what was read
extern "C" void E_info()
{
    static const char *const MD[] = { "MA=aa\n", "MB=\n", "MC=c$(MA)c\n" }, *const MW[] = { "MA = aa", "MB = ", "MC = " };
    static const char *const RD[] = { ".xa.yy:\n\tra $<\n", "{in}.xb{out}.yy:\n\trb $<\n\trB $@\n", ".xc.yy::\n\trc $<\n" }; static const char *const RH[] = { ".xa.yy:", "{in}.xb{out}.yy:", ".xc.yy::" };
    bool m[3], r[3]; QByteArray t = ".SUFFIXES:\n.SUFFIXES: .xa .xb .xc\n"; for (int i = 0; i < 3; ++i) if ((m[i] = rt_bool("macro"))) t += MD[i]; for (int i = 0; i < 3; ++i) if ((r[i] = rt_bool("rule"))) { t += RD[i]; sym_reach(i == 2 ? "batch" : "rule"); }
    N = TIER == 2 ? 3 : 2; int nd[3], nc[3]; for (int i = 0; i < N; ++i) { nd[i] = rt_choose("deps", 3); nc[i] = i ? rt_choose("cmds", 3) : 1; t += nm(i) + ":"; for (int k = 0; k < nd[i]; ++k) t += QByteArray(" d") + (char)('a' + i) + (char)('0' + k); t += "\n"; for (int k = 0; k < nc[i]; ++k) t += QByteArray("\t@run ") + (char)('A' + i) + (char)('0' + k) + "\n"; sym_reach("target"); }
    for (int i = 0; i < N; ++i) for (int k = 0; k < nd[i]; ++k) rt_file(QByteArray("d") + (char)('a' + i) + (char)('0' + k), "x", true, 3);
    bool cmdline = rt_bool("cmdline"); rt_file("mf", t); QList<QByteArray> o; o << "/p" << "/r"; if (cmdline) o << "MA=zz"; int c = run(o); sym_assert(c == 0 && ran.size() == 1, "the build takes place as usual");
    QByteArray out = rt_stdout(); int a = out.indexOf("MACROS:"), b = out.indexOf("INFERENCE RULES:"), e = out.indexOf("TARGETS:"); sym_assert(a >= 0 && b > a && e > b, "macros, rules and targets are listed");
    QList<QByteArray> ml = out.mid(a, b - a).split('\n'), rl = out.mid(b, e - b).split('\n'), tl;
    for (int i = 0; i < 3; ++i) { int n = 0; QByteArray w = MW[i]; if (i == 0 && cmdline) w = "MA = zz"; bool ok = false; for (const QByteArray &l : ml) if (l.startsWith(QByteArray(MW[i]).left(5))) { ++n; ok = i == 2 ? l == (cmdline ? "MC = czzc" : m[0] ? "MC = caac" : "MC = cc") || l == "MC = c$(MA)c" : l == w; } bool want = m[i] || (i == 0 && cmdline); sym_assert(n == (want ? 1 : 0) && (!n || ok), "every macro is listed with its value"); }
    int nr = 0; for (int i = 0; i < 3; ++i) { int n = 0; for (int k = 0; k < rl.size(); ++k) if (rl.at(k) == RH[i]) { ++n; ++nr; QList<QByteArray> d = QByteArray(RD[i]).split('\n'); for (int x = 1; x + 1 < d.size(); ++x) sym_assert(k + x < rl.size() && rl.at(k + x) == d.at(x), "a rule is listed with its commands"); } sym_assert(n == (r[i] ? 1 : 0), "every inference rule is listed once"); }
    tl = out.mid(e).split('\n'); QByteArray flat; int seen[3] = { 0 }; int cur = -1; QByteArray part[3]; for (const QByteArray &l : tl) { for (int i = 0; i < N; ++i) if (l == nm(i) + ":") { cur = i; ++seen[i]; } if (cur >= 0 && l != nm(cur) + ":") part[cur] += l + "\t"; }
    for (int i = 0; i < N; ++i) { sym_assert(seen[i] == 1, "every target is listed once"); QList<QByteArray> w; for (const QByteArray &x : part[i].split('\t')) if (!x.trimmed().isEmpty()) w << x.trimmed(); QList<QByteArray> want; want << "dependents:"; for (int k = 0; k < nd[i]; ++k) want << QByteArray("d") + (char)('a' + i) + (char)('0' + k); want << "commands:"; for (int k = 0; k < nc[i]; ++k) want << QByteArray("run ") + (char)('A' + i) + (char)('0' + k); sym_assert(w == want, "a target is listed with its dependents and commands"); }
}
// ---- /U: the text of inline files
static int g_files; static bool g_named, g_u;
static void checkInline(const WProc &p)
{
    QString c = p.cmd; int a = c.indexOf(QLatin1Char(' ')); QByteArray out = rt_stdout(), want; QStringList f = c.mid(a + 1).split(QLatin1Char(' ')); sym_assert(f.size() == g_files, "every inline file has a name");
    for (const QString &n : f) { QByteArray rel = n.contains(QLatin1Char('/')) ? rt_relPath(n) : n.toLatin1(); sym_assert(rt_exists(rel), "the inline file exists when the command runs"); want += "---" + n.toLatin1() + "---\n" + rt_content(rel) + "---end of inline file---\n"; }
    if (g_u) { sym_assert(out.startsWith(want) && out.count("---end of") == g_files, "the text that is shown is the text of the file"); sym_reach("shown"); } else { sym_assert(!out.contains("---"), "inline files are not shown unless asked for"); sym_reach("hidden"); }
}
extern "C" void E_inline()
{
    static const char *const L[] = { "", "one\n", "\n", "a b\n  two\n", "---\n" }; g_mode = 1; g_files = 1 + rt_choose("files", 2); g_named = rt_bool("named"); g_u = rt_bool("u"); QByteArray c = "\t@run", body;
    for (int i = 0; i < g_files; ++i) { c += " <<"; if (g_named) c += QByteArray("fi") + (char)('0' + i); int k = rt_choose("lines", 4); body += L[k]; if (rt_bool("more")) body += "last\n"; body += rt_bool("keep") ? "<<KEEP\n" : "<<\n"; }
    rt_file("mf", "ta:\n" + c + "\n" + body); QList<QByteArray> o; if (g_u) o << "/u"; int r = run(o); sym_assert(r == 0 && ran.size() == 1, "the command is run");
}
// ---- /W: the working directory
extern "C" void E_dir()
{
    g_mayFail = true; bool K = rt_bool("k"), w = rt_bool("w"); rt_file("mf", "ta: tb\n\t@run a\ntb:\n\t@run b\n"); QList<QByteArray> o; if (w) o << "/w"; if (K) o << "/k"; run(o);
    QList<QByteArray> l = lines(); QByteArray d = rt_cwd().toLatin1(); QList<QByteArray> want; if (w) want << "jom: Entering directory '" + d + "'" << "jom: Leaving directory '" + d + "'"; sym_reach(g_anyFailed ? "failed" : "both");
    sym_assert(l.size() == want.size() && (want.isEmpty() || (l.at(0) == want.at(0) && l.at(1) == want.at(1))), "the working directory is shown before and after all other processing");
}
