// @app: yes
// @entry: E_graph time=250 ttime=1500 reach=built,current,pseudo
// @entry: E_rules time=100 ttime=900 reach=built,current
// @entry: E_batch time=100 ttime=900 reach=built,current
// @entry: E_files time=60 ttime=300 reach=old,new,dump
// @entry: E_options time=60 ttime=300 reach=quiet,loud,built,current
// @bound: the whole program from main() on; every dependency graph of 4 (thorough 5) nodes, each a plain file or a target with up to two commands, echoed or silent, that use $? or not, with arbitrary presence and 64-bit time stamps (where commands use $?, commands create their targets); chains of inference rules of length 2 with a file missing at any place; named and unnamed inline files, kept or not, over a file of that name or none; any other options out of { /S /I /K /A /W /P /U /Y /R }, .SILENT and .IGNORE with commands of any prefix
// @outside: several goals, commands that do not update their existing target, commands that are built into jom (cd, set), more nodes, time stamps in the future, commands that depend on what others did
#include "app.h"
#include "fastfileinfo.h"
static int N; static bool g_j2, g_newer; static bool dep[6][6], plain[6]; static int cmds[6]; static bool creates[6], exists[6]; static uint64_t age[6]; static QList<QByteArray> ran;
static QByteArray nm(int i) { return QByteArray("t") + (char)('a' + i); }
static void a_started(const WProc &p, int) { ran << p.cmd.toLatin1(); rt_observe("run", p.cmd); }
static int a_exitCode(const QString &) { return 0; }
static void ruleEnded(const QString &c); static void batchEnded(const QString &c);
static void a_ended(const QString &c, int)
{
    if (N == -1) { ruleEnded(c); return; } if (N == -2) { batchEnded(c); return; } if (c.size() < 6 || c.at(4).unicode() < 'a') return; int i = c.at(4).unicode() - 'a'; if (i < N && c.at(5).unicode() - '0' == cmds[i] - 1 && creates[i]) rt_touch(nm(i), true, 0x01cffffffffffff0ull);
}
static QStringList env() { return QStringList() << QString(R_("PATH=x")); }
static void dry(const QList<QByteArray> &opts, QList<QByteArray> &out)
{
    int c = a_run(a_list(QList<QByteArray>() << "/nologo" << "/n" << "/f" << "mf" << opts), env()); sym_assert(c == 0 && ran.isEmpty(), "a dry run executes nothing and succeeds");
    QByteArray o = rt_stdout(); while (!o.isEmpty()) { int k = o.indexOf('\n'); sym_assert(k >= 0, "every line is complete"); QByteArray l = o.left(k); o = o.mid(k + 1); if (!l.isEmpty() && l.at(0) == '\t') out << l.mid(1); }
}
static void both(QList<QByteArray> opts)
{
    QList<QByteArray> want; opts << (g_j2 ? "/j2" : "/j1"); dry(opts, want);
    for (int i = 0; i < N; ++i) NMakeFile::FastFileInfo::clearCacheForFile(QString::fromLatin1(nm(i)));
    opts.last() = "/j1"; int c = a_run(a_list(QList<QByteArray>() << "/nologo" << "/f" << "mf" << opts), env()); sym_assert(c == 0, "the build succeeds");
    sym_observe_int("n", ran.size()); sym_assert(want.size() == ran.size(), "a dry run prints as many commands as a build executes"); for (int i = 0; i < ran.size(); ++i) sym_assert(want.at(i) == ran.at(i), "a dry run prints the commands a build executes, in this order");
    sym_reach(ran.isEmpty() ? "current" : "built");
}
static void file(int i, bool may) { exists[i] = !may || rt_bool("exists"); creates[i] = exists[i] || g_newer || rt_bool("creates"); if (exists[i]) { age[i] = sym_new("age", 64); sym_assume((age[i] > 0) & (age[i] < 0x01c0000000000000ull)); rt_file(nm(i), "x", true, age[i]); } }
static QByteArray text()
{
    QByteArray t; for (int i = 0; i < N; ++i) { if (plain[i]) continue; t += nm(i) + ":"; for (int k = 0; k < N; ++k) if (dep[i][k]) t += " " + nm(k); t += "\n"; for (int c = 0; c < cmds[i]; ++c) t += QByteArray("\t") + (i & 1 ? "@" : c ? "-" : "") + "run " + (char)('a' + i) + (char)('0' + c) + (g_newer && !c && i < 2 ? " $?" : "") + "\n"; t += "\n"; }
    return t;
}
extern "C" void E_graph()
{
    bool big = rt_bool("big"); N = TIER == 2 ? big ? 5 : 4 : big ? 4 : 3; bool A = !big && rt_bool("all"); g_j2 = !big && rt_bool("j2"); g_newer = !big && rt_bool("newer"); for (int i = 0; i < N; ++i) { plain[i] = i && (big && TIER != 2 ? i == 3 : rt_bool("plain")); cmds[i] = plain[i] ? 0 : big ? (i == 2 ? 1 - (int)rt_bool("nocmd") : 1) : i < 2 ? rt_choose("cmds", 3) : 1 - (int)rt_bool("nocmd"); }
    for (int i = 0; i < N; ++i) if (!plain[i]) for (int k = i + 1; k < N; ++k) dep[i][k] = k == i + 1 && !i ? true : rt_bool("dep");
    bool need[6] = { true }; for (int i = 0; i < N; ++i) for (int k = 0; k < N; ++k) if (need[i] && dep[i][k]) need[k] = true; for (int i = 0; i < N; ++i) { if (!need[i]) return; file(i, !plain[i]); if (!exists[i] && cmds[i] && !creates[i]) sym_reach("pseudo"); }
    rt_file("mf", text()); QList<QByteArray> o; if (A) o << "/A"; both(o);
}
// targets that come out of inference rules
static void ruleEnded(const QString &c) { if (N != -1) return; rt_touch(c.startsWith(QString(R_("comp"))) ? "xx.o" : "xx.e", true, 0x01cffffffffffff0ull); }
static const char *const F[] = { "xx.e", "xx.o", "xx.c" };

extern "C" void E_rules()
{
    N = 0; bool h = rt_bool("header"), main = rt_bool("explicit"); for (int i = 0; i < 3; ++i) { bool e = i == 2 || rt_bool("exists"); if (e) { uint64_t a = sym_new("age", 64); sym_assume((a > 0) & (a < 0x01c0000000000000ull)); rt_file(F[i], "x", true, a); } }
    if (h) { uint64_t a = sym_new("age", 64); sym_assume((a > 0) & (a < 0x01c0000000000000ull)); rt_file("xx.h", "x", true, a); }
    rt_file("mf", QByteArray(".SUFFIXES:\n.SUFFIXES: .e .o .c\n.c.o:\n\tcomp $<\n.o.e:\n\tlink $<\n") + "all: xx.e\n" + (main ? "xx.e: xx.o\n" : "") + "xx.o:" + (h ? " xx.h" : "") + "\n");
    QList<QByteArray> want, o; dry(o, want); for (const char *f : F) NMakeFile::FastFileInfo::clearCacheForFile(QString(R_("")) + R_(f)); NMakeFile::FastFileInfo::clearCacheForFile(QString(R_("xx.h"))); N = -1;
    int c = a_run(a_list(QList<QByteArray>() << "/nologo" << "/f" << "mf" << "/j1"), env()); sym_assert(c == 0, "the build succeeds"); sym_observe_int("n", ran.size()); sym_observe_int("w", want.size());
    sym_assert(want.size() == ran.size(), "a dry run prints as many commands as a build executes"); for (int i = 0; i < ran.size(); ++i) sym_assert(want.at(i) == ran.at(i), "a dry run prints the commands a build executes, in this order"); sym_reach(ran.isEmpty() ? "current" : "built");
}
// targets that are built in a batch
static void batchEnded(const QString &c) { for (const char *n : { "ya", "yb", "yc" }) if (c.startsWith(QString(R_("comp "))) && c.contains(QString(R_("")) + R_(n) + QLatin1Char('.'))) rt_touch(QByteArray(n) + ".o", true, 0x01cffffffffffff0ull); if (c.startsWith(QString(R_("link")))) rt_touch(c.mid(5).toLatin1(), true, 0x01cffffffffffff0ull); }
static void stamp(const char *n, bool may) { if (may && !rt_bool("exists")) return; uint64_t a = sym_new("age", 64); sym_assume((a > 0) & (a < 0x01c0000000000000ull)); rt_file(n, "x", true, a); }
extern "C" void E_batch()
{
    N = 0; int n = TIER == 2 ? 3 : 2; static const char *const O[] = { "ya.o", "yb.o", "yc.o" }, *const C[] = { "ya.c", "yb.c", "yc.c" }, *const X[] = { "xa.e", "xb.e", "xc.e" };
    QByteArray t = ".SUFFIXES:\n.SUFFIXES: .o .c\n.c.o::\n\tcomp $<\nall:"; for (int i = 0; i < n; ++i) t += QByteArray(" ") + X[i]; t += "\n"; for (int i = 0; i < n; ++i) { stamp(C[i], false); stamp(O[i], true); stamp(X[i], true); t += QByteArray(X[i]) + ": " + O[i] + "\n\tlink " + X[i] + "\n"; } for (int i = 0; i < n; ++i) t += QByteArray(O[i]) + ":\n";
    rt_file("mf", t); QList<QByteArray> want, o; dry(o << "/j1", want); for (int i = 0; i < n; ++i) { NMakeFile::FastFileInfo::clearCacheForFile(QString(R_("")) + R_(O[i])); NMakeFile::FastFileInfo::clearCacheForFile(QString(R_("")) + R_(X[i])); } N = -2;
    int c = a_run(a_list(QList<QByteArray>() << "/nologo" << "/f" << "mf" << "/j1"), env()); sym_assert(c == 0, "the build succeeds"); sym_observe_int("n", ran.size()); sym_observe_int("w", want.size());
    sym_assert(want.size() == ran.size(), "a dry run prints as many commands as a build executes"); for (int i = 0; i < ran.size(); ++i) sym_assert(want.at(i).trimmed() == ran.at(i).trimmed(), "a dry run prints the commands a build executes, in this order"); sym_reach(ran.isEmpty() ? "current" : "built");
}
// inline files
extern "C" void E_files()
{
    bool named = rt_bool("named"), keep = rt_bool("keep"), old = named && rt_bool("old"), U = rt_bool("u"); rt_file("mf", QByteArray("aa:\n\trun <<") + (named ? "ff" : "") + "\ntext\n<<" + (keep ? "KEEP" : "NOKEEP") + "\n\trun 2\n"); if (old) rt_file("ff", "before", true, 5);
    QList<QByteArray> o, out; if (U) o << "/u"; dry(o, out); sym_assert(out.size() == 2 && out.at(0).startsWith("run ") && out.at(1) == "run 2", "a dry run prints the commands"); QByteArray f = rt_relPath(QString::fromLatin1(out.at(0).mid(4)));
    sym_assert(!named || f == "ff", "the name of the inline file is shown"); sym_assert(rt_exists(f) == old && (!old || rt_content(f) == "before"), "a dry run changes no file"); if (U) { sym_assert(rt_stdout().contains("text"), "/U shows the content of inline files"); sym_reach("dump"); } sym_reach(old ? "old" : "new");
}
// other options do not make a difference
extern "C" void E_options()
{
    N = 0; static const char *const O[] = { "/S", "/I", "/K", "/A", "/W", "/P", "/U", "/Y", "/R" }, *const P[] = { "", "@", "-", "@-", "!" }; int k = rt_choose("option", 10), k2 = rt_choose("second", 10), p = rt_choose("prefix", 5); bool silent = rt_bool("silent"), ign = rt_bool("ignore"), first = rt_bool("first"), j2 = rt_bool("j2"); if (k2 < 9 && k2 <= k) return;
    rt_file("mf", QByteArray(silent ? ".SILENT:\n" : "") + (ign ? ".IGNORE:\n" : "") + "all: bb\n\t" + P[p] + "run a $?\n\trun c\nbb: dd\n\t@run b\ndd:\n"); bool e = rt_bool("exists"); if (e) { rt_file("bb", "x", true, 7); rt_file("all", "x", true, 8); rt_file("dd", "x", true, 5); } bool A = k == 3 || k2 == 3, quiet = k == 0 || k2 == 0 || silent;
    QList<QByteArray> o, want, out; if (k < 9) o << O[k]; if (k2 < 9) o << O[k2]; if (j2) o << "/j2"; QList<QByteArray> a; a << "/nologo"; if (first) a << o << "/n"; else a << "/n" << o; a << "/f" << "mf"; int c = a_run(a_list(a), env()); sym_assert(c == 0 && ran.isEmpty(), "a dry run executes nothing and succeeds");
    if (!e || A) want << "\trun b" << "\trun a bb" << "\trun c"; QByteArray x = rt_stdout(); while (!x.isEmpty()) { int i = x.indexOf('\n'); sym_assert(i >= 0, "every line is complete"); QByteArray l = x.left(i); x = x.mid(i + 1); for (const char *r : { "\trun a", "\trun b", "\trun c" }) if (l.startsWith(r)) { out << l; break; } }
    sym_assert((k == 5 || k2 == 5) || out.size() == want.size(), "a dry run prints as many commands as a build executes"); int at = out.size() - want.size(); sym_assert(at >= 0, "a dry run prints the commands"); for (int i = 0; i < want.size(); ++i) sym_assert(rt_eqb(out.at(at + i), want.at(i)), "a dry run prints the commands a build executes, whatever the other options and marks are"); sym_reach(quiet ? "quiet" : "loud"); sym_reach(want.isEmpty() ? "current" : "built");
}
