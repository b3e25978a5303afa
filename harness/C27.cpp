// @entry: E_api time=150 ttime=900 reach=fresh,cached,appeared,cleared
// @entry: E_goals time=200 ttime=1500 reach=rebuilt,current,deleted,failed
// @entry: E_three time=200 ttime=1500 reach=rebuilt,current
// @bound: up to 5 (thorough 7) queries, changes (appearing, disappearing, arbitrary new age) and invalidations over 2 files out of 4 names; builds with up to 3 goals out of 2 targets, one depending on the other, with names in a directory or with blanks, and of 3 goals out of 3 targets in a row; commands leave, touch (arbitrary age) or delete their target and may fail with the keep-going option
// @outside: a file named in several spellings; changes by something else than the commands of the target; future and zero time stamps; batch rules (C12)
#include "hsched.h"
#include "fastfileinfo.h"
static uint64_t age(const char *n) { uint64_t a = sym_new(n, 64); sym_assume((a > 0) & (a < 0x01d0000000000000ull)); return a; }
struct State { bool exists; uint64_t age; };
extern "C" void E_api()
{
    static const char *const NAMES[] = { "fa", "fb", "sub/fa", "f a" }; int a = rt_choose("first", 4), b = rt_choose("second", 4); if (a >= b) return; rt_dir("sub"); const char *n[2]; n[0] = NAMES[a]; n[1] = NAMES[b];
    State cur[2], seen[2]; bool cached[2] = { false, false }, missed[2] = { false, false };
    for (int i = 0; i < 2; ++i) { cur[i].exists = rt_bool("exists"); cur[i].age = cur[i].exists ? age("age") : 0; if (cur[i].exists) rt_file(n[i], "x", true, cur[i].age); }
    for (int k = TIER == 2 ? 7 : 5; k-- > 0;) {
        int i = rt_choose("file", 2), op = rt_choose("op", 3); QString name = QString(R_("")) + R_(n[i]);
        if (op == 0) {
            FastFileInfo f(name); bool e = f.exists(); uint64_t t = f.lastModified().internalRepresentation(); sym_observe_int("exists", e); sym_observe_int("time", t);
            bool fresh = (e == cur[i].exists) & (t == cur[i].age); bool old = cached[i] ? (e == seen[i].exists) & (t == seen[i].age) : false;
            sym_assert(fresh | old, "a file is reported as it is or as it was found since it was last invalidated"); if (!cached[i]) { sym_assert(fresh, "a file that was invalidated or missing is looked up again"); sym_reach("fresh"); if (missed[i] && e) sym_reach("appeared"); } else sym_reach("cached");
            if (e) { if (!cached[i]) { seen[i].exists = e; seen[i].age = t; } cached[i] = true; missed[i] = false; } else { cached[i] = false; missed[i] = true; }
        } else if (op == 1) { cur[i].exists = rt_bool("exists"); cur[i].age = cur[i].exists ? age("age") : 0; rt_touch(n[i], cur[i].exists, cur[i].age); }
        else { FastFileInfo::clearCacheForFile(name); cached[i] = false; sym_reach("cleared"); }
    }
}
// ---- builds with several goals
static int NT, g_n; static int g_goal[4]; static State g_s[3]; static bool g_failed[3], g_canFail, g_canDelete; static int g_at, g_step; static int g_style;
static QByteArray nm(int i) { QByteArray n = QByteArray("t") + (char)('a' + i); return g_style == 1 ? "sub/" + n : g_style == 2 ? n + " x" : n; }
static QByteArray q(int i) { return g_style == 2 ? "\"" + nm(i) + "\"" : nm(i); }
// a target depends on the one before it; a goal i needs the targets 0..i in this order
static bool g_wasMissing[3];      // a target that did not exist counts as newer in the goal it is built for
static bool outdated(int i) { if (!g_s[i].exists) return true; if (i == 0) return false; return g_wasMissing[i - 1] | !g_s[i - 1].exists | (g_s[i - 1].age > g_s[i].age); }
static bool g_noMore;
static void advance()
{   // to the next target that must be built
    while (g_at < g_n) {
        int goal = g_goal[g_at];
        if (g_step > goal) { g_step = 0; ++g_at; for (bool &f : g_failed) f = false; for (bool &f : g_wasMissing) f = false; continue; }
        bool blocked = false; for (int k = 0; k < g_step; ++k) if (g_failed[k]) blocked = true;
        if (blocked) { ++g_step; continue; }
        if (outdated(g_step)) return;
        sym_reach("current"); ++g_step;
    }
    g_noMore = true;
}
static void s_started(const QString &c, int)
{
    int i = c.at(c.size() - 1).unicode() - 'a'; rt_observe("start", c); advance(); sym_assert(!g_noMore, "nothing that is up to date is built"); sym_assert(i == g_step, "the next target is built that is out of date according to the files as they are now"); sym_reach("rebuilt"); if (!g_s[i].exists) g_wasMissing[i] = true;
}
static void s_ended(const QString &c, bool ok)
{
    int i = c.at(c.size() - 1).unicode() - 'a', k = rt_choose("outcome", g_canDelete ? 3 : 2); if (k == 1) { g_s[i].exists = true; g_s[i].age = age("newage"); rt_touch(nm(i), true, g_s[i].age); } else if (k == 2 && g_s[i].exists) { g_s[i].exists = false; rt_touch(nm(i), false, 0); sym_reach("deleted"); }
    if (!ok) { g_failed[i] = true; sym_reach("failed"); } ++g_step;
}
static uint32_t codeOf(const QString &) { return g_canFail && rt_bool("fail") ? 1 : 0; }
static void run()
{
    QByteArray t; QStringList goals; for (int i = 0; i < NT; ++i) { t += q(i) + ":" + (i ? " " + q(i - 1) : QByteArray()) + "\n\trun " + (char)('a' + i) + "\n\n"; g_s[i].exists = rt_bool("exists"); if (g_s[i].exists) { g_s[i].age = age("age"); rt_file(nm(i), "x", true, g_s[i].age); } }
    for (int k = 0; k < g_n; ++k) { g_goal[k] = rt_choose("goal", NT); goals << QString::fromLatin1(nm(g_goal[k])); }
    Mk mk; if (g_canFail) mk.o->buildUnrelatedTargetsOnError = true; sym_assert(mk.read(t, goals), "the makefile is read"); s_exitCode = codeOf; s_build(mk, 1, goals); advance(); sym_assert(g_noMore, "everything that is out of date is built");
}
extern "C" void E_goals() { rt_dir("sub"); g_style = rt_choose("style", 3); NT = 2; g_n = 1 + rt_choose("goals", 3); g_canFail = g_n < 3; g_canDelete = true; run(); }
extern "C" void E_three() { NT = 3; g_n = 3; run(); }
