// @entry: E_pattern time=150 ttime=900 reach=none,one,several
// @entry: E_list time=150 ttime=900 reach=read
// @entry: E_elsewhere time=60 ttime=300 reach=read
// @entry: E_build time=150 ttime=900 reach=built,current
// @bound: every pattern of up to 5 (thorough 6) characters out of a b . * ? c, bare, with ./, with a directory, with an absolute directory, in the root directory and with directories that do not exist or only start like another one; 4 of 9 files in two directories exist or not, with names in several cases and hidden names; lists of up to 3 dependents with and without wildcards, directly or through a macro; absolute patterns in makefiles of another directory; builds with arbitrary ages of two matching files
// @outside: sets in brackets; the order of the matching files; relative patterns in a makefile outside of the working directory; directories reached through links
#include "hsched.h"
#include <QtCore/QDir>
static bool s_ran; static QByteArray s_cmd;
static void s_started(const QString &c, int) { rt_observe("start", c); s_ran = true; s_cmd = c.toLatin1(); }
static void s_ended(const QString &, bool) {}
// the whole name must match; * any characters, ? one character, case does not matter
static bool low(char a, char b) { if (a >= 'A' && a <= 'Z') a += 32; if (b >= 'A' && b <= 'Z') b += 32; return a == b; }
static bool fits(const QByteArray &p, const QByteArray &s)
{
    bool row[16]; int n = s.size(); row[0] = true; for (int j = 1; j <= n; ++j) row[j] = false;
    for (int i = 0; i < p.size(); ++i) {
        char c = p.at(i);
        if (c == '*') { for (int j = 1; j <= n; ++j) row[j] = row[j] | row[j - 1]; }
        else { for (int j = n; j > 0; --j) row[j] = row[j - 1] & ((c == '?') | low(c, s.at(j - 1))); row[0] = false; }
    }
    return row[n];
}
static bool wild(const QByteArray &p) { for (int i = 0; i < p.size(); ++i) if (p.at(i) == '*' || p.at(i) == '?') return true; return false; }
static const char *const FILES[] = { "aa.c", "ab.c", "Ab.C", "b", "bc.a", ".hid", "sub/aa.c", "sub/ab.c", "subb/aa.c" };
enum { NF = 9 };
static bool g_have[NF]; static QByteArray g_cwd;
static QByteArray absName(const QString &s) { QByteArray b = s.toLatin1(); while (b.startsWith("./")) b = b.mid(2); return b.startsWith("/") ? b : g_cwd + b; }
// the names of a directory ("" the working directory) that match
static QList<QByteArray> matches(const QByteArray &dir, const QByteArray &pat)
{
    QList<QByteArray> r; QByteArray d = dir;
    for (int i = 0; i < NF; ++i) { if (!g_have[i]) continue; QByteArray f = FILES[i]; int sl = f.lastIndexOf('/'); QByteArray fd = sl < 0 ? QByteArray("") : f.left(sl + 1), fn = f.mid(sl + 1); if (fd == d && !fn.startsWith('.') && fits(pat, fn)) r += g_cwd + f; }
    if (d.isEmpty()) { static const char *const O[] = { "mf", "tmp", "sub", "subb" }; for (const char *o : O) if (fits(pat, o)) r += g_cwd + o; }
    return r;
}
static void files(int mask)
{
    g_cwd = (rt_cwd() + QLatin1Char('/')).toLatin1(); rt_dir("sub"); rt_dir("subb");
    for (int i = 0; i < NF; ++i) { g_have[i] = mask >> i & 1; if (!g_have[i] && (i == 1 || i == 6)) g_have[i] = rt_bool("exists"); if (g_have[i]) rt_file(FILES[i], "x"); }
}
static void same(const QList<QByteArray> &got, const QList<QByteArray> &exp)
{
    sym_observe_int("n", exp.size());
    sym_assert(got.size() == exp.size(), "as many dependents as matching files"); for (int i = 0; i < exp.size(); ++i) { int n = 0; for (int k = 0; k < got.size(); ++k) if (rt_eqb(got.at(k), exp.at(i))) ++n; sym_assert(n == 1, "every matching file is a dependent once"); }
}
extern "C" void E_pattern()
{
    static const char *const DIR[] = { "", "./", "sub/", "@", "@sub/", "no/", "/no_such_dir/", "su/", "/" }; int k = rt_choose("dir", 9); files(0x1bd);
    QByteArray dir = DIR[k], pat = rt_bytes("p", "ab.*?c", rt_choose("n", TIER == 2 ? 6 : 5) + 1); if (dir.startsWith('@')) dir = g_cwd + dir.mid(1);
    sym_assume(wild(pat)); if (k == 8) { if (pat.size() < 2) return; sym_assume((pat.at(pat.size() - 1) == 'c') & (pat.at(pat.size() - 2) == '.')); }    // the root directory has no such files
    Mk mk; bool ok = mk.read("tt: " + dir + pat + "\n\t@r\n"); sym_assert(ok, "a makefile with wildcards is read"); DescriptionBlock *b = mk.t("tt"); sym_assert(b != nullptr, "the target exists"); observeTarget(b);
    QList<QByteArray> got; for (int i = 0; i < b->m_dependents.size(); ++i) got += absName(b->m_dependents.at(i));
    QList<QByteArray> exp; if (k < 5) exp = matches(k == 2 || k == 4 ? "sub/" : "", pat);
    same(got, exp); sym_reach(exp.isEmpty() ? "none" : exp.size() == 1 ? "one" : "several");
}
// several dependents, some with wildcards, keep their order
extern "C" void E_list()
{
    static const char *const TOK[] = { "xx", "a*.c", "sub/?b.*", "$(W)", "*.zz", "\"b?.a\"", "B*" }; files(0x1bd); int n = rt_choose("n", 3) + 1; QByteArray l; QList<QList<QByteArray> > exp;
    for (int i = 0; i < n; ++i) { int t = rt_choose("token", 7); l += ' '; l += TOK[t]; QList<QByteArray> e; switch (t) { case 0: e += g_cwd + "xx"; break; case 1: e = matches("", "a*.c"); break; case 2: e = matches("sub/", "?b.*"); break; case 3: e = matches("sub/", "*"); exp += e; e = QList<QByteArray>(); e += g_cwd + "yy"; break; case 4: break; case 5: e = matches("", "b?.a"); break; default: e = matches("", "B*"); } exp += e; }
    Mk mk; bool ok = mk.read("W=sub/* yy\ntt:" + l + "\n\t@r\n"); sym_assert(ok, "a makefile with wildcards is read"); DescriptionBlock *b = mk.t("tt"); observeTarget(b); sym_reach("read");
    int at = 0; for (int i = 0; i < exp.size(); ++i) { QList<QByteArray> got; for (int k = 0; k < exp.at(i).size() && at < b->m_dependents.size(); ++k) got += absName(b->m_dependents.at(at++)); same(got, exp.at(i)); }
    sym_assert(at == b->m_dependents.size(), "no further dependents");
}
// an absolute pattern means the same whatever the directory of the makefile is called
extern "C" void E_elsewhere()
{
    static const char *const MF[] = { "sub/mk", "su/mk", "subb/mk", "mk" }; static const char *const DIR[] = { "sub/", "subb/", "" }; files(0x1bd); rt_dir("su"); int m = rt_choose("makefile", 4), k = rt_choose("dir", 3);
    static const char *const PAT[] = { "a*", "?b.c", "*.C" }; QByteArray pat = PAT[rt_choose("pattern", 3)]; Makefile *mf = new Makefile(QString(R_("")) + R_(MF[m])); Mk mk; mf->setOptions(mk.o); mf->setMacroTable(mk.mt); mk.m = mf;
    bool ok = mk.read("tt: " + g_cwd + DIR[k] + pat + "\n\t@r\n"); sym_assert(ok, "a makefile with wildcards is read"); DescriptionBlock *b = mk.t("tt"); sym_reach("read");
    // names below the directory of the makefile are relative to it
    QByteArray md = QByteArray(MF[m]); md.truncate(md.size() - 2); QList<QByteArray> got; for (int i = 0; i < b->m_dependents.size(); ++i) { QByteArray d = b->m_dependents.at(i).toLatin1(); got += d.startsWith('/') ? d : g_cwd + md + d; rt_observe("dep", got.last().mid(g_cwd.size())); }
    same(got, matches(DIR[k], pat));
}
// the matching files decide whether the target must be built
extern "C" void E_build()
{
    files(0x1bd); static const char *const PAT[] = { "?a.c", "sub/a*", "*.c" }; static const char *const SHOW[] = { "", "sub/", "" }; int k = rt_choose("pattern", 3); uint64_t target = sym_new("target", 64); sym_assume((target > 0) & (target < 0x01d0000000000000ull)); rt_file("tt", "x", true, target);
    QList<QByteArray> exp = matches(SHOW[k], QByteArray(PAT[k]).mid((int)strlen(SHOW[k]))); QList<uint64_t> age; bool newer = false; for (int i = 0; i < exp.size(); ++i) { uint64_t a = sym_new("age", 64); sym_assume((a > 0) & (a < 0x01d0000000000000ull)); rt_touch(exp.at(i).mid(g_cwd.size()), true, a); newer = newer | (a > target); }
    Mk mk; bool ok = mk.read(QByteArray("tt: ") + PAT[k] + "\n\t@r $?.\n"); sym_assert(ok, "a makefile with wildcards is read"); s_eager = true; s_build(mk, 1);
    sym_assert(s_ran == newer, "the target is built if a matching file is newer"); sym_reach(s_ran ? "built" : "current");
}
