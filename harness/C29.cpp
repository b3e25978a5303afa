// @app: yes
// @entry: E_exit time=100 ttime=900 reach=ok,failed,usage,version,badargs,error,dry,empty,graph
// @entry: E_flags time=100 ttime=900 reach=jom,make,none,dry
// @entry: E_envfile time=60 ttime=300 reach=jom,make
// @entry: E_nested time=150 ttime=1200 reach=shared,own,same,parallel
// @entry: E_single time=60 ttime=600 reach=single,parallel
// @entry: E_goals time=60 ttime=300 reach=missing,failed,all
// @entry: E_interrupt time=100 ttime=900 reach=interrupted,ended,kept
// @bound: the whole program from main() on; a makefile of 3 targets, 1 or 2 jobs, with and without /K, every subset of commands failing in every order; 16 kinds of wrong or special command lines and makefiles; JOMFLAGS and MAKEFLAGS from 7 values each with 4 command lines, or naming a makefile of up to 3 (4) characters over { - a N }; three jom processes, each the child of the one before, with 1 to 4 jobs inherited, given or overridden, options handed on with $(MAKEFLAGS) or not; .NOTPARALLEL with 1 to 4 jobs; up to 3 goals in any order of which one may need a file that is missing, every subset of commands failing; an interrupt at every point of a build with inline files of 2 targets
// @outside: the operating system's delivery of Ctrl+C (here it arrives while jom waits for events); the text of messages except that the usage, the version, the logo and an error are shown; /X and /P; code pages; a job server that cannot be started
#include "app.h"
static QList<QByteArray> started; static bool badEnd; static int maxRun; static bool mayFail;
static QByteArray name(const QString &c) { return c.toLatin1(); }
static void nestedStart(const WProc &p, int running); static bool nested, noObs; QByteArray rt_relPath(const QString &p);
static void a_started(const WProc &p, int running) { if (nested) nestedStart(p, running); started << name(p.cmd); if (!noObs) rt_observe("start", p.cmd); if (running > maxRun) maxRun = running; }
static int a_exitCode(const QString &) { return mayFail && rt_bool("fail") ? 1 : 0; }
static void a_ended(const QString &, int code) { if (code) badEnd = true; }
static bool has(const QByteArray &b, const char *s) { return b.contains(s); }
extern "C" void E_exit()
{
    int k = rt_choose("k", 20); QList<QByteArray> a; QByteArray mf = "aa: bb cc\n\trun a\nbb:\n\trun b\ncc:\n\trun c\n"; bool nologo = rt_bool("nologo"), W = rt_bool("w"), K = k < 3 && rt_bool("k"); int want = 0; bool runs = false;
    if (nologo) a << "/nologo"; if (W) a << "-w"; if (K) a << "/K"; a << "/j" << (k == 1 ? "1" : "2"); bool f = true;
    switch (k) {
    case 0: case 1: case 2: mayFail = true; runs = true; break;
    case 3: a << "/z"; want = 128; break;
    case 4: a << "/j0"; want = 128; break;
    case 5: a << "/f"; f = false; want = 128; break;
    case 6: a << (rt_bool("h") ? "/?" : "-h"); break;
    case 7: a << "/version"; break;
    case 8: mf = QByteArray(); want = 2; break;
    case 9: mf += "!if\n"; want = 2; break;
    case 10: mf += "bb: aa\n"; want = 2; break;
    case 11: a << "xx"; want = 2; break;
    case 12: a << "bb" << "xx"; want = 2; break;
    case 13: a << "a-b=c"; want = 128; break;
    case 14: mf = "aa: xx\n\trun a\n"; want = 2; break;
    case 15: mf = "AB = 1\n"; break;
    case 16: a << (rt_bool("dot") ? "/dumpgraphdot" : "/dumpgraph"); if (rt_bool("goals")) a << "bb" << "cc"; break;
    case 17: a << "-n"; break;
    case 18: rt_file("aa", "", true, 5); rt_file("bb", "", true, 4); rt_file("cc", "", true, 5); break;
    case 19: mf += "!error stop\n"; want = 2; break;
    }
    if (f) a << "/f" << "mf"; if (k != 8) rt_file("mf", mf);
    int c = a_run(a_list(a), QStringList() << QString(R_("PATH=x")));
    QByteArray &o = rt_stdout(), &e = rt_stderr(); sym_assert(a_obtained == a_released, "all job tokens have been returned");
    if (runs) {
        sym_assert(c == (!badEnd ? 0 : K ? 1 : 2), "the exit code tells whether a command failed"); sym_assert(badEnd || started.size() == 3, "all commands are executed"); sym_reach(c ? "failed" : "ok");
        sym_assert(a_created == (k == 1 ? 0 : 1), "the job server has one token less than jobs"); sym_assert(maxRun <= (k == 1 ? 1 : 2), "no more commands than jobs run");
    } else {
        sym_assert(c == want, "exit code"); sym_assert(started.isEmpty(), "nothing is executed");
        sym_reach(k == 6 ? "usage" : k == 7 ? "version" : want == 128 ? "badargs" : want ? "error" : k == 17 ? "dry" : k == 15 ? "empty" : k == 16 ? "graph" : "ok");
    }
    if (want) sym_assert(!e.isEmpty() || has(o, "Usage"), "an error is reported");
    bool usage = k == 6 || (want == 128 && k != 13); sym_assert(has(o, "Usage: jom") == usage, "the usage is shown"); sym_assert(has(o, "jom version ") == (k == 7), "the version is shown");
    if (k != 7 && want == 0 && k != 16) sym_assert(has(e, "empower your cores") == !nologo, "the logo is shown unless it is switched off");
    if (k < 3 || k == 15 || k == 17 || k == 18) { int x = o.indexOf("Entering directory"), y = o.indexOf("Leaving directory"); sym_assert((x >= 0) == W && (y >= 0) == W && y >= x, "the working directory is printed before and after the build"); }
}

// ---- JOMFLAGS wins over MAKEFLAGS, both are defaults that the command line adds to
static int letters(const QByteArray &s, int *jobs)
{
    int m = 0; for (int i = 0; i < s.size(); ++i) { char c = s.at(i); if (c >= 'a') c -= 32; if (c == 'J') { int n = 0; while (i + 1 < s.size() && s.at(i + 1) >= '0' && s.at(i + 1) <= '9') n = n * 10 + (s.at(++i) - '0'); *jobs = n; } else if (c >= 'A' && c <= 'Z') m |= 1 << (c - 'A'); }
    return m;
}
extern "C" void E_flags()
{
    static const char *const V[] = { nullptr, "", "-", "K", "-NK", "Lj2", "sJ3" }, *const A[] = { "", "/k", "/nj3", "-S" };
    const char *j = V[rt_choose("jom", 7)], *m = V[rt_choose("make", 7)], *a = A[rt_choose("arg", 4)]; QStringList env; env << QString(R_("PATH=x")); if (m) env << QString(R_("MAKEFLAGS=")) + R_(m); if (j) env << QString(R_("JOMFLAGS=")) + R_(j);
    rt_file("mf", "aa:\n\trun $(MAKEFLAGS)\n"); QList<QByteArray> args; if (*a) args << a; args << "/f" << "mf"; int c = a_run(a_list(args), env); sym_assert(c == 0, "the build succeeds");
    const char *src = j && *j ? j : m && *m ? m : ""; sym_reach(j && *j ? "jom" : m && *m ? "make" : "none"); int jobs = 0, want = letters(src, &jobs), gj = 0; want |= letters(a, &jobs); bool dry = want & (1 << ('N' - 'A'));
    sym_assert(started.size() == (dry ? 0 : 1), "the options in the environment have the effect of those on the command line"); if (dry) sym_reach("dry");
    QByteArray cmd = dry ? rt_stdout().mid(rt_stdout().indexOf("run ") + 4) : started.at(0).mid(4); sym_assert(letters(cmd, &gj) == want && gj == jobs, "the options of the environment variable and of the command line are in effect");
    sym_assert(a_created == (jobs ? jobs : 4) - 1, "the number of jobs"); sym_assert(has(rt_stderr(), "empower your cores") == !(want & (1 << ('L' - 'A'))), "the logo is shown unless it is switched off");
}
// the name of the makefile in the environment
extern "C" void E_envfile()
{
    bool jom = rt_bool("jom"), minus = rt_bool("minus"), K = rt_bool("k"), other = rt_bool("other"); QByteArray n = rt_bytes("c", "-aN", 1 + rt_choose("n", TIER == 2 ? 4 : 3)); rt_file(n, "all:\n\trun good\n"); QStringList e; e << QString(R_("PATH=x")); QByteArray f = (minus ? "-" : "") + QByteArray(K ? "K" : "") + (other ? "F" : "f") + n;
    e << QString(R_("")) + (jom ? R_("JOMFLAGS=") : R_("MAKEFLAGS=")) + QString::fromLatin1(f); if (jom && other) e << QString(R_("MAKEFLAGS=-N")); int c = a_run(a_list(QList<QByteArray>() << "/nologo"), e); sym_assert(c == 0 && started.size() == 1 && started.at(0) == "run good", "the environment variable names the makefile"); sym_reach(jom ? "jom" : "make");
}
// ---- jom as a command of jom
static QStringList nextEnv; static QByteArray nextFlags; static int level;
static int s_tokens() { return a_obtained - a_released; }
static QString envVal(const QStringList &l, const char *n) { QString p = QString(R_("")) + R_(n) + QLatin1Char('='); for (const QString &s : l) if (s.startsWith(p, Qt::CaseInsensitive)) return s.mid(p.size()); return QString(); }
static void nestedStart(const WProc &p, int running)
{
    if (running > 1) sym_reach("parallel"); sym_assert(running - 1 <= s_tokens(), "beyond its implicit job jom starts a command only while holding a job token");
    QStringList e = a_envOf(p); if (nextEnv.isEmpty()) nextEnv = e; else { sym_assert(envVal(e, "_JOMSRVKEY_") == envVal(nextEnv, "_JOMSRVKEY_") && envVal(e, "_JOMJOBCOUNT_") == envVal(nextEnv, "_JOMJOBCOUNT_"), "all commands get the same job server"); }
    sym_assert(envVal(e, "PATH") == QString(R_("x")), "the environment is passed on"); QByteArray c = name(p.cmd); nextFlags = c.mid(6);
}
extern "C" void E_nested()
{
    nested = noObs = true;     rt_file("mf", "aa: bb cc\n\trun a $(MAKEFLAGS)\nbb:\n\trun b $(MAKEFLAGS)\ncc:\n\trun c $(MAKEFLAGS)\n"); QStringList env; env << QString(R_("PATH=x")); QString key; int count = 0; nextFlags = QByteArray();
    for (level = 0; level < 3; ++level) {
        int own = rt_choose("jobs", 4); bool pass = level && rt_bool("pass"), k = rt_bool("k"); if (level == 2) { sym_assume(!k); if (own == 3) return; } QList<QByteArray> a; int set = 0;
        if (pass) { int j = 0; letters(nextFlags, &j); if (j) set = j; if (!nextFlags.isEmpty()) a << "/" + nextFlags; } if (own) { a << "/j" + QByteArray(1, (char)('0' + own)); set = own; } if (k) a << "/k"; a << "/f" << "mf";
        QStringList in = env; nextEnv = QStringList(); nextFlags = QByteArray(); started = QList<QByteArray>(); int c = a_run(a_list(a), in); sym_assert(c == 0 && started.size() == 3, "the build succeeds"); sym_assert(a_obtained == a_released, "all job tokens have been returned");
        bool create = !level || (set && set != count);
        if (create) { int n = set ? set : 4; sym_assert(a_created == n - 1 && a_usedKey == a_createdKey, "a jom without parent and one with another number of jobs has its own job server"); key = a_createdKey; count = n; if (level) sym_reach("own"); }
        else { sym_assert(a_created == -1 && a_usedKey == key, "jom as a command of jom uses the job server of its parent"); sym_reach(set ? "same" : "shared"); }
        sym_assert(envVal(nextEnv, "_JOMSRVKEY_") == key && envVal(nextEnv, "_JOMJOBCOUNT_").toInt() == count, "commands get the job server and the number of its jobs");
        sym_assert(has(rt_stderr(), "empower your cores") == !level, "only the outermost jom shows the logo"); env = nextEnv;
    }
}
// ---- .NOTPARALLEL
extern "C" void E_single()
{
    bool np = rt_bool("notparallel"), sub = rt_bool("include"); QByteArray t = "aa: bb cc\n\trun a\nbb:\n\trun b\ncc:\n\trun c\n"; if (np) { if (sub) { rt_file("in", ".NOTPARALLEL:\n"); t += "!include in\n"; } else t = rt_bool("front") ? ".NOTPARALLEL:\n" + t : t + ".NOTPARALLEL:\n"; }
    rt_file("mf", t); QList<QByteArray> a; a << "/j" + QByteArray(1, (char)('1' + rt_choose("jobs", 4))) << "/f" << "mf"; mayFail = rt_bool("fails"); int c = a_run(a_list(a), QStringList() << QString(R_("PATH=x")));
    sym_assert((c != 0) == badEnd && a_obtained == a_released, "the build ends as usual"); if (np) { sym_assert(maxRun == 1 && a_obtained == 0, "with .NOTPARALLEL one command runs at a time"); sym_reach("single"); } else if (maxRun > 1) sym_reach("parallel");
}
// ---- interrupted by the user
static QList<QByteArray> temps;
extern "C" void E_interrupt()
{
    a_interrupts = noObs = true; bool keep = rt_bool("keep"), K = rt_bool("k"); mayFail = true; rt_file("mf", QByteArray("aa: bb cc\n\trun a <<\nta\n<<") + "\nbb:\n\trun b <<\ntb\n<<\n\trun d <<\ntd\n<<" + "\ncc:\n\trun c <<kk\ntc\n<<" + (keep ? "KEEP" : "NOKEEP") + "\n"); QList<QByteArray> a; a << (rt_bool("one") ? "/j1" : "/j2"); if (K) a << "/K"; a << "/f" << "mf";
    int c = a_run(a_list(a), QStringList() << QString(R_("PATH=x"))); bool ccStarted = false;
    for (const QByteArray &s : started) { QByteArray f = rt_relPath(QString::fromLatin1(s.mid(6))); if (s.at(4) == 'c') { ccStarted = true; sym_assert(f == "kk" && rt_exists(f) == keep, "a kept inline file stays, another does not"); if (keep) sym_reach("kept"); } else { sym_assert(!rt_exists(f), "no temporary file is left behind"); } }
    if (!a_interrupts) { sym_assert(c == 2, "an interrupted build fails"); sym_assert(has(rt_stderr(), "terminated"), "the interrupt is reported"); sym_reach("interrupted"); } else { sym_assert((c != 0) == badEnd, "the exit code tells whether a command failed"); sym_reach("ended"); }
}
// ---- several goals, one of which may need a file that is neither there nor can be made
extern "C" void E_goals()
{
    noObs = mayFail = true; bool there = rt_bool("there"), K = rt_bool("k"), W = rt_bool("w"), both = rt_bool("both"); if (there) rt_file("mm", "x", true, 5);
    rt_file("mf", QByteArray("aa:\n\t@run a <<\nta\n<<") + "\nbb: dd\n\t@run b\ndd: " + (both ? "aa mm" : "mm") + "\ncc:\n\t@run c <<kk\ntc\n<<\n");
    QList<QByteArray> a; a << (rt_bool("one") ? "/j1" : "/j2") << "/nologo" << "/f" << "mf"; if (K) a << "/K"; if (W) a << "/w"; char g[4] = { 0, 0, 0, 0 }; int n = 1 + rt_choose("n", 3);
    for (int i = 0; i < n; ++i) { g[i] = (char)('a' + rt_choose("goal", 3)); for (int k = 0; k < i; ++k) if (g[k] == g[i]) return; a << QByteArray(2, g[i]); }
    int c = a_run(a_list(a), QStringList() << QString(R_("PATH=x"))), at = 0; bool missing = false; QByteArray o = rt_stdout();
    for (int i = 0; i < n; ++i) { if (g[i] == 'b' && !there) { missing = true; break; } if (g[i] == 'b' && both && at < started.size() && started.at(at).at(4) == 'a') ++at; bool own = at < started.size() && started.at(at).at(4) == g[i]; if (own) ++at; sym_assert(own || badEnd, "every goal is built"); if (badEnd && !K && at == started.size()) break; }
    sym_assert(at == started.size(), "exactly the goals are built, in order");
    for (const QByteArray &s : started) if (s.at(4) != 'b') sym_assert(!rt_exists(rt_relPath(QString::fromLatin1(s.mid(6)))), "no temporary file is left behind");
    sym_assert(c == (badEnd && !K ? 2 : missing ? 2 : badEnd ? 1 : 0), "the exit code tells whether everything was built"); sym_reach(missing ? "missing" : badEnd ? "failed" : "all");
    sym_assert(has(rt_stderr(), "does not exist") == (missing && (!badEnd || K)), "a missing file is reported"); if (W) { sym_assert(o.startsWith("jom: Entering directory '"), "the working directory is shown first"); int l = o.lastIndexOf("jom: Leaving directory '"); sym_assert(l > 0 && o.indexOf('\n', l) == o.size() - 1, "the working directory is shown last"); }
    sym_assert(a_obtained == a_released, "all job tokens have been returned");
}
