// @entry: E_letters time=200 ttime=1500 reach=ok,unknown,two
// @entry: E_args time=250 ttime=1500 reach=ok,rejected,macro,target,option,invalid
// @entry: E_value time=150 ttime=900 reach=attached,separate,missing,bad,zero
// @entry: E_long time=100 ttime=600 reach=ok
// @entry: E_back time=150 ttime=1500 reach=jobs,nojobs
// @entry: E_inherit time=100 ttime=600 reach=environment,plain,override
// @bound: one argument with up to 3 (thorough 4) arbitrary printable characters after - or /; argument lists of up to 3 arguments with up to 3 characters each over { - / = a S j 1 blank f }; /F, /X and /J with attached and separate values of up to 4 characters; every long option in 4 case variants with a following letter; option strings of up to 5 letters spread over up to 3 arguments, with up to two job counts, read back by a child, with and without an inherited MAKEFLAGS
// @outside: macro definitions of the same macro twice, long options followed by another long option, command files (C17), options outside ASCII, jobs that do not fit into 31 bits, which options JOMFLAGS overrides, the exported string for /F, /X, /DUMPGRAPH, /DEBUG, /VERSION and /ERRORREPORT
#include "mk.h"
#include "makefilefactory.h"
static const char LET[] = "ABCDEGHIKLNPQRSTUWY?";
struct RefOpt { bool f[20]; bool graph, dot, debug, version; QByteArray mf, err; bool hasMf, jobsSet; int jobs; QList<QByteArray> targets, macN, macV; };
static RefOpt refNew() { RefOpt r; for (int i = 0; i < 20; ++i) r.f[i] = false; r.graph = r.dot = r.debug = r.version = r.hasMf = r.jobsSet = false; r.jobs = 4; return r; }
static char up(char c) { return c >= 'a' && c <= 'z' ? char(c - 32) : c; }
static QByteArray trimmed(QByteArray s) { int a = 0, b = s.size(); while (a < b && (s.at(a) == ' ' || s.at(a) == '\t')) ++a; while (b > a && (s.at(b - 1) == ' ' || s.at(b - 1) == '\t')) --b; return s.mid(a, b - a); }
static bool digits(const QByteArray &s) { for (int i = 0; i < s.size(); ++i) if (s.at(i) < '0' || s.at(i) > '9') return false; return !s.isEmpty(); }
static void refLetter(RefOpt &r, char u, bool *ok) { for (int i = 0; i < 20; ++i) if (LET[i] == u) { r.f[i] = true; return; } *ok = false; }
// long options at the start of s; returns their length
static int refLong(RefOpt &r, const QByteArray &s)
{
    static const char *const L[] = { "NOLOGO", "DUMPGRAPHDOT", "DUMPGRAPH", "DEBUG", "ERRORREPORT", "VERSION" };
    for (int k = 0; k < 6; ++k) { int n = (int)strlen(L[k]); if (s.size() < n) continue; bool eq = true; for (int i = 0; i < n; ++i) if (up(s.at(i)) != L[k][i]) { eq = false; break; } if (!eq) continue; switch (k) { case 0: refLetter(r, 'L', &eq); break; case 1: r.dot = r.graph = true; refLetter(r, 'L', &eq); break; case 2: r.graph = true; refLetter(r, 'L', &eq); break; case 3: r.debug = true; break; case 5: r.version = true; } return n; }
    return 0;
}
// 0: fine, 1: rejected, 2: invalid macro name
static int refParse(RefOpt &r, const QList<QByteArray> &args)
{
    for (int a = 0; a < args.size(); ++a) {
        QByteArray s = args.at(a); if (s.isEmpty()) { sym_assume(false); }
        if (s.at(0) == '-' || s.at(0) == '/') {
            s = trimmed(s.mid(1));
            for (int i = 0; i < s.size();) {
                i += refLong(r, s.mid(i)); if (i >= s.size()) break; char c = up(s.at(i)); ++i;
                if (c == 'F' || c == 'X') { QByteArray v = s.mid(i); if (v.isEmpty()) { if (a + 1 >= args.size()) return 1; v = args.at(++a); } if (c == 'F') { r.mf = v; r.hasMf = true; } else r.err = v; break; }
                if (c == 'J') { QByteArray v; if (i >= s.size()) { if (a + 1 >= args.size()) return 1; v = args.at(++a); sym_assume(digits(v) || v.isEmpty() || (v.at(0) >= 'A')); } else { int k = i; while (k < s.size() && s.at(k) >= '0' && s.at(k) <= '9') ++k; v = s.mid(i, k - i); i = k; } if (!digits(v)) return 1; int n = 0; for (int k = 0; k < v.size(); ++k) n = n * 10 + (v.at(k) - '0'); if (n < 1) return 1; r.jobs = n; r.jobsSet = true; continue; }
                bool ok = true; refLetter(r, c, &ok); if (!ok) return 1;
            }
            continue;
        }
        int e = -1; for (int i = 0; i < s.size() && e < 0; ++i) if (s.at(i) == '=') e = i;
        if (e >= 0) {
            QByteArray n = trimmed(s.left(e)), v = s.mid(e + 1); while (!v.isEmpty() && (v.at(0) == ' ')) v = v.mid(1);
            if (n.isEmpty()) return 2; for (int i = 0; i < n.size(); ++i) { char c = n.at(i); if (!((up(c) >= 'A' && up(c) <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '.')) return 2; }
            for (const QByteArray &o : r.macN) { QByteArray x, y; for (int i = 0; i < o.size(); ++i) x += up(o.at(i)); for (int i = 0; i < n.size(); ++i) y += up(n.at(i)); if (x == y) sym_assume(false); }
            r.macN << n; r.macV << v;
        } else { s = trimmed(s); bool dup = false; for (const QByteArray &o : r.targets) if (o == s) dup = true; if (!dup) r.targets << s; }
    }
    return 0;
}
static bool flagOf(const Options &o, char c)
{
    switch (c) { case 'A': return o.buildAllTargets; case 'B': return o.buildIfTimeStampsAreEqual; case 'C': return o.suppressOutputMessages; case 'D': return o.displayBuildInfo; case 'E': return o.overrideEnvVarMacros; case 'G': return o.displayIncludeFileNames; case 'I': return !o.stopOnErrors; case 'K': return o.buildUnrelatedTargetsOnError; case 'L': return !o.showLogo; case 'N': return o.dryRun; case 'P': return o.displayMakeInformation; case 'Q': return o.checkTimeStampsButDoNotBuild; case 'R': return o.ignorePredefinedRulesAndMacros; case 'S': return o.suppressExecutedCommandsDisplay; case 'T': return o.changeTimeStampsButDoNotBuild; case 'U': return o.dumpInlineFiles; case 'W': return o.printWorkingDir; case 'Y': return !o.batchModeEnabled; }
    return o.showUsageAndExit;   // H and ?
}
struct Run { Options *o; MacroTable *mt; QString mf; QStringList targets; QStringList in; bool ok; };
static void body(void *p) { Run *r = (Run *)p; r->ok = r->o->readCommandLineArguments(r->in, r->mf, r->targets, *r->mt); }
static int run(Run &r, const QList<QByteArray> &args)
{
    g_options.maxNumberOfJobs = 4; g_options.isMaxNumberOfJobsSet = false; r.o = new Options; r.mt = new MacroTable; r.ok = false; for (const QByteArray &a : args) r.in << QString::fromLatin1(a);
    int x = rt_run(body, &r); if (x >= 0) { sym_assert(x == 128, "exit code for an invalid macro name"); return 2; } return r.ok ? 0 : 1;
}
static void compare(Run &r, const RefOpt &w)
{
    bool I = w.f[7];
    for (int i = 0; i < 20; ++i) { bool want = w.f[i]; if (LET[i] == 'K' && I) want = false; if (LET[i] == 'H' || LET[i] == '?') want = w.f[6] || w.f[19]; sym_assert(flagOf(*r.o, LET[i]) == want, "each option letter sets its option and no other"); }
    sym_assert(r.o->dumpDependencyGraph == w.graph && r.o->dumpDependencyGraphDot == w.dot && r.o->debugMode == w.debug && r.o->showVersionAndExit == w.version, "each long option sets its option");
    sym_assert(g_options.isMaxNumberOfJobsSet == w.jobsSet && g_options.maxNumberOfJobs == w.jobs, "number of jobs");
    sym_assert(sameText(r.mf, w.hasMf ? w.mf : QByteArray("Makefile")), "name of the makefile"); sym_assert(sameText(r.o->stderrFile, w.err), "file for standard error");
    sym_assert(sameList(r.targets, w.targets), "targets in the given order");
    for (int i = 0; i < w.macN.size(); ++i) { QString n = QString::fromLatin1(w.macN.at(i)); if (n.toUpper() == R_("MAKEFLAGS")) continue; sym_assert(r.mt->isMacroDefined(n) && sameText(r.mt->macroValue(n), w.macV.at(i)), "macro definitions"); }
}
static int both(const QList<QByteArray> &args, RefOpt &w, Run &r)
{
    w = refNew(); int e = refParse(w, args), g = run(r, args);
    sym_assert(g == e, e == 1 ? "unknown options and missing or bad values are rejected" : e == 2 ? "invalid macro names are rejected" : "valid arguments are accepted");
    if (!e) compare(r, w); return e;
}
extern "C" void E_letters()
{
    int n = 1 + rt_choose("n", TIER == 2 ? 4 : 3); QByteArray a; a += (char)rt_oneOf("dash", "-/"); for (int i = 0; i < n; ++i) { uint8_t c = rt_byte("c"); sym_assume((c > 32) & (c < 127)); a += (char)c; }
    RefOpt w; Run r; int e = both(QList<QByteArray>() << a, w, r); sym_reach(e ? "unknown" : n > 1 ? "two" : "ok");
}
extern "C" void E_args()
{
    int n = 1 + rt_choose("n", TIER == 2 ? 3 : 2); QList<QByteArray> args; for (int i = 0; i < n; ++i) { int k = 1 + rt_choose("len", n == 1 ? 4 : 3); QByteArray a = rt_bytes("c", "-/=aSj1 f", k); args << a; }
    RefOpt w; Run r; int e = both(args, w, r); sym_reach(e == 1 ? "rejected" : e == 2 ? "invalid" : "ok"); if (!e) { if (!w.macN.isEmpty()) sym_reach("macro"); if (!w.targets.isEmpty()) sym_reach("target"); if (w.f[14]) sym_reach("option"); }
}
extern "C" void E_value()
{
    static const char K[] = "FXJfxj"; char k = K[rt_choose("k", 6)]; bool pre = rt_bool("pre"), sep = rt_bool("separate"), post = rt_bool("post"); int n = rt_choose("n", 4); bool j = up(k) == 'J'; QByteArray v = rt_bytes("v", j ? "0129" : "-/=a. @", n); if (!sep && n && !j) sym_assume(v.at(n - 1) != ' ');
    QByteArray a = QByteArray(rt_bool("slash") ? "/" : "-") + (pre ? "s" : "") + k; QList<QByteArray> args; if (sep) { args << a << v; if (!j && n == 0) return; if (j && !n) sym_reach("missing"); if (!j && v.at(0) == '@') return; } else { if (!j && n && v.at(0) == ' ') return; args << a + v; if (j && post) args.last() += "s"; } if (post) args << "tgt";
    if (n == 0 && !sep) sym_reach("missing");
    RefOpt w; Run r; int e = both(args, w, r); if (!e) sym_reach(sep ? "separate" : "attached"); if (e && n && j) sym_reach("zero"); if (e && j && !n) sym_reach("bad");
}
extern "C" void E_long()
{
    static const char *const L[] = { "nologo", "dumpgraphdot", "dumpgraph", "debug", "errorreport:none", "errorreport", "version", "nolog", "debu" }; int k = rt_choose("k", 9), f = rt_choose("case", 4); QByteArray a(L[k]), s; for (int i = 0; i < a.size(); ++i) s += f == 0 || (f == 2 && i % 2) || (f == 3 && i) ? a.at(i) : up(a.at(i));
    if (k == 4) return; bool post = rt_bool("post"), more = rt_bool("more"); QList<QByteArray> args; args << "/" + s + (post ? "s" : ""); if (more) args << "-k" << "tgt"; RefOpt w; Run r; both(args, w, r); sym_reach("ok");
}
// what is exported means the same when it is read back
static void back(const QList<QByteArray> &args)
{
    Run r; if (run(r, args) != 0) return; int jobs = g_options.maxNumberOfJobs; bool set = g_options.isMaxNumberOfJobsSet; QByteArray flags = r.mt->macroValue(QString(R_("MAKEFLAGS"))).toLatin1(); rt_observe("flags", flags); sym_reach(set ? "jobs" : "nojobs");
    Run c; QList<QByteArray> in; if (!flags.isEmpty()) in << "/" + flags; sym_assert(run(c, in) == 0, "the exported option string is accepted");
    for (int i = 0; i < 20; ++i) sym_assert(flagOf(*c.o, LET[i]) == flagOf(*r.o, LET[i]), "the exported option string sets the same options"); sym_assert(!c.o->debugMode && !c.o->dumpDependencyGraph && !c.o->showVersionAndExit && c.o->stderrFile.isEmpty() && sameText(c.mf, "Makefile") && c.targets.isEmpty(), "the exported option string sets no other option");
    sym_assert(g_options.maxNumberOfJobs == jobs && g_options.isMaxNumberOfJobsSet == set, "the exported option string sets the same number of jobs");
}
extern "C" void E_back()
{
    QList<QByteArray> args; int kind = rt_choose("kind", 4);
    if (kind == 0) { int n = 1 + rt_choose("n", TIER == 2 ? 3 : 2); QByteArray a = "/"; for (int i = 0; i < n; ++i) { int k = rt_choose("c", 26); a += (char)((i == n - 1 && rt_bool("lower") ? 'a' : 'A') + k); } args << a; }
    else if (kind == 1) { QByteArray rest = "DEBUG", l; for (int i = 5; i > 0; --i) { int k = i > 1 ? (int)rt_choose("c", i) : 0; l += rest.at(k); rest = rest.left(k) + rest.mid(k + 1); } int a = 1 + rt_choose("split", 4), b = a + rt_choose("split2", 5); if (b > 5) return; if (rt_bool("lower")) { QByteArray u; for (int i = 0; i < 5; ++i) u += i & 1 ? l.at(i) : char(l.at(i) + 32); l = u; } args << "/" + l.left(a); if (b > a) args << "-" + l.mid(a, b - a); if (b < 5) args << "/" + l.mid(b); for (const QByteArray &x : args) if (x.size() == 6) return; }
    else if (kind == 2) { for (int i = 0; i < 3; ++i) switch (rt_choose("form", 5)) { case 0: args << "/j" + rt_bytes("d", "129", 1 + rt_choose("len", 2)); break; case 1: args << "-J" << rt_bytes("d", "129", 1); break; case 2: args << "/s"; break; case 3: args << "-sJ" + rt_bytes("d", "13", 1) + "k"; break; case 4: break; } }
    else { args << "/nologo" + QByteArray(rt_bool("s") ? "s" : ""); args << "/f" << "mf" << (rt_bool("x") ? "-xe" : "/K") << "/J" << (rt_bool("plus") ? "+3" : "3"); }
    back(args);
}
extern "C" void E_inherit()
{   // MAKEFLAGS is in the environment: its options are in effect and are passed on together with the new ones
    bool env = rt_bool("env"), e = rt_bool("override"); int k = rt_choose("k", 4), p = rt_choose("p", 3); static const char *const K[] = { "", "K", "KJ3", "L" }, *const P[] = { "", "/s", "/j2" }; if (e) sym_reach("override");
    rt_file("mf", "tt:\n\tcmd\n"); QStringList in; QByteArray inh = K[k]; if (env && !inh.isEmpty()) in << QString::fromLatin1("/" + inh); in << QString(R_("/f")) << QString(R_("mf")); if (*P[p]) in << QString(R_("")) + R_(P[p]); if (e) in << QString(R_("/e")); g_options.maxNumberOfJobs = 4; g_options.isMaxNumberOfJobsSet = false;
    MakefileFactory f; QStringList envl; envl << QString(R_("PATH=x")); if (env) envl << QString(R_("MAKEFLAGS=")) + R_(K[k]); f.setEnvironment(envl); Options *o = nullptr; sym_assert(f.apply(in, &o), "the makefile is read"); int jobs = g_options.maxNumberOfJobs; bool set = g_options.isMaxNumberOfJobsSet;
    QList<QByteArray> flags; flags << f.makefile()->macroTable()->macroValue(QString(R_("MAKEFLAGS"))).toLatin1(); const ProcessEnvironment &pe = f.makefile()->macroTable()->environment(); if (env) { sym_assert(pe.contains(QString(R_("MAKEFLAGS"))), "an inherited MAKEFLAGS is passed on"); flags << pe.value(QString(R_("MAKEFLAGS"))).toLatin1(); sym_reach("environment"); } else sym_reach("plain");
    for (const QByteArray &x : flags) { rt_observe("flags", x); Run c; QList<QByteArray> a; if (!x.isEmpty()) a << "/" + x; sym_assert(run(c, a) == 0, "the exported option string is accepted"); for (int i = 0; i < 20; ++i) sym_assert(flagOf(*c.o, LET[i]) == flagOf(*o, LET[i]), "the exported option string sets the same options"); sym_assert(g_options.maxNumberOfJobs == jobs && g_options.isMaxNumberOfJobsSet == set, "the exported option string sets the same number of jobs"); }
}
