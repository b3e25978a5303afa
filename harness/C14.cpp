// @entry: E_name time=150 ttime=900 reach=D,B,F,R,plain,star,quoted
// @entry: E_list time=150 ttime=900 reach=all,newer,empty,some,quoted
// @entry: E_subst time=150 ttime=900 reach=replaced,same
// @entry: E_pair time=100 ttime=600 reach=empty,escaped
// @entry: E_single time=100 ttime=600 reach=runs,none
// @entry: E_dependent time=60 ttime=600 reach=ok
// @bound: target names of 2 to 5 (thorough 6) characters over { a . / \ blank } with every modifier of $@ and $*; lists of up to 3 dependents with symbolic names, symbolic file ages and every presence of files; substitutions with left side of 1 to 2 and right side of 0 to 2 symbolic characters on names of 3; every pair of adjacent macro invocations out of 13 kinds with up to 2 dependents; commands with ! for up to 3 dependents
// @outside: $< (C12); D for names with / and B, F for names with \ (path handling of Windows is not available in this build); B for names with several dots; missing dependents in $?; ^ before a file name macro; $$@ of targets with blanks in dependents
#include "mk.h"
static bool in(char c, const char *set) { bool r = false; for (; *set; ++set) r |= c == *set; return r; }
static int lastOf(const QByteArray &s, const char *set) { for (int i = s.size(); i-- > 0;) if (in(s.at(i), set)) return i; return -1; }
static bool has(const QByteArray &s, char c) { bool r = false; for (int i = 0; i < s.size(); ++i) r |= s.at(i) == c; return r; }
static QByteArray modified(const QByteArray &n, char mod)
{
    int sep = lastOf(n, "/\\"), dot = lastOf(n, ".");
    switch (mod) {
    case 'D': sym_assume(!has(n, '/')); return sep < 0 ? QByteArray(".") : n.left(sep);
    case 'F': sym_assume(!has(n, '\\')); return n.mid(sep + 1);
    case 'B': { sym_assume(!has(n, '\\')); QByteArray f = n.mid(sep + 1); int d = lastOf(f, "."); if (d >= 0) sym_assume(!has(f.left(d), '.')); return d < 0 ? f : f.left(d); }
    case 'R': return dot > sep ? n.left(dot) : n;
    }
    return n;
}
static QByteArray quoted(const QByteArray &n) { if (has(n, ' ')) { sym_reach("quoted"); return "\"" + n + "\""; } return n; }
static QByteArray join(const QList<QByteArray> &l) { QByteArray r; for (int i = 0; i < l.size(); ++i) { if (i) r += ' '; r += quoted(l.at(i)); } return r; }
static const char MODS[] = { 0, 'D', 'B', 'F', 'R' };
static void expectCommands(DescriptionBlock *b, const QList<QByteArray> &want)
{
    sym_assert(b != nullptr, "the target is known"); b->expandFileNameMacros();
    sym_assert(b->m_commands.size() == want.size(), "number of commands");
    for (int i = 0; i < want.size(); ++i) { rt_observe("cmd", b->m_commands.at(i).m_commandLine); sym_assert(sameText(b->m_commands.at(i).m_commandLine, want.at(i)), "file name macros are replaced by the names they stand for"); }
}
extern "C" void E_name()
{
    int n = rt_choose("n", TIER == 2 ? 5 : 4); QByteArray name = "x" + rt_bytes("c", "a./\\ ", n) + "y"; int k = rt_choose("mod", 5); bool star = rt_bool("star"); char mod = MODS[k];
    sym_assume(!(has(name, '/') & has(name, '\\')));
    QByteArray inv = mod ? QByteArray("$(") + (star ? '*' : '@') + mod + ")" : rt_bool("paren") ? QByteArray(star ? "$(*)" : "$(@)") : QByteArray(star ? "$*" : "$@");
    Mk mk; sym_assert(mk.read("first: \"" + name + "\"\n\"" + name + "\":\n\tp" + inv + "q\n"), "the makefile is read");
    QByteArray v = star ? modified(name, 'R') : name; if (star) { sym_reach("star"); if (v.endsWith(".")) { } } v = modified(v, mod);
    sym_reach(mod == 'D' ? "D" : mod == 'B' ? "B" : mod == 'F' ? "F" : mod == 'R' ? "R" : "plain");
    DescriptionBlock *b = nullptr; foreach (DescriptionBlock *x, mk.m->targets()) if (x != mk.m->firstTarget()) b = x;
    expectCommands(b, QList<QByteArray>() << "p" + quoted(v) + "q");
}
extern "C" void E_list()
{
    int n = rt_choose("n", 4), kind = rt_choose("kind", 2), k = rt_choose("mod", 3); char mod = k == 0 ? 0 : k == 1 ? 'R' : 'F';
    QList<QByteArray> deps; QByteArray t = "tt:"; bool present = rt_bool("present"); uint64_t age = 0;
    for (int i = 0; i < n; ++i) { QByteArray d = "d" + QByteArray::number(i) + (i == 1 ? rt_bytes("c", ". a", 1) : QByteArray()) + "x"; deps.append(d); t += " \"" + d + "\""; }
    QByteArray mac = kind ? "?" : "**"; t += "\n\tp " + (mod ? "$(" + mac + mod + ")" : "$" + mac) + ".\n";
    if (kind) { age = sym_new("age", 64); rt_file("tt", "x", present, present ? age : 0); }
    QList<QByteArray> want;
    for (int i = 0; i < n; ++i) { bool take = true; if (kind) { uint64_t a = sym_new("age", 64); sym_assume((a != 0) & (age != 0)); rt_file(deps.at(i), "x", true, a); take = !present || age <= a; } if (take) want.append(modified(deps.at(i), mod)); }
    Mk mk; sym_assert(mk.read(t), "the makefile is read");
    sym_reach(kind ? "newer" : "all"); if (want.isEmpty()) sym_reach("empty"); else if (want.size() < n) sym_reach("some");
    expectCommands(mk.t("tt"), QList<QByteArray>() << "p " + join(want) + ".");
}
static QByteArray replaced(const QByteArray &v, const QByteArray &a, const QByteArray &b)
{
    QByteArray o; int i = 0; bool any = false;
    while (i < v.size()) if (i + a.size() <= v.size() && rt_eqb(v.mid(i, a.size()), a)) { o += b; i += a.size(); any = true; } else o += v.at(i++);
    sym_reach(any ? "replaced" : "same"); return o;
}
extern "C" void E_subst()
{
    bool list = rt_bool("list"), mod = rt_bool("mod"); int na = 1 + rt_choose("na", 2), nb = rt_choose("nb", 3);
    QByteArray a = rt_bytes("a", "xy.", na), b = rt_bytes("b", "z x", nb), m1 = "f" + rt_bytes("m", "xy.", 2), m2 = "gxyx", t;
    if (mod) sym_assume((m1.at(1) != '.') | (m1.at(2) != '.'));
    QByteArray inv = QByteArray("$(") + (list ? "**" : "@") + (mod ? "R" : "") + ":" + a + "=" + b + ")";
    t = list ? "tt: " + m1 + " " + m2 + "\n\tp " + inv + ".\n" : "first: " + m1 + "\n" + m1 + ":\n\tp " + inv + ".\n";
    Mk mk; sym_assert(mk.read(t), "the makefile is read"); QList<QByteArray> v; v << replaced(mod ? modified(m1, 'R') : m1, a, b); if (list) v << replaced(m2, a, b);
    DescriptionBlock *d = mk.t("tt"); if (!list) foreach (DescriptionBlock *x, mk.m->targets()) if (x != mk.m->firstTarget()) d = x;
    expectCommands(d, QList<QByteArray>() << "p " + join(v) + ".");
}
// two invocations in a row
extern "C" void E_pair()
{
    static const char *const I[] = { "$@", "$*", "$**", "$?", "$(@)", "$(**)", "$(?)", "$(@D)", "$(**R)", "$(?F)", "$$@", "$$(**)", "$(**:.=,)" };
    int n = rt_choose("n", 3), k[2] = { (int)rt_choose("k", 13), (int)rt_choose("k", 13) }; bool gap = rt_bool("gap");
    rt_file("tt.x", "x", true, 5); rt_file("d1.a", "x", true, 6); rt_file("d2.b", "x", true, 4);
    QByteArray t = "tt.x:", want = "p"; if (n > 0) t += " d1.a"; if (n > 1) t += " d2.b"; t += "\n\tp";
    for (int i = 0; i < 2; ++i) {
        t += I[k[i]]; QByteArray all = n == 0 ? "" : n == 1 ? "d1.a" : "d1.a d2.b", newer = n ? "d1.a" : "", r = n == 0 ? "" : n == 1 ? "d1" : "d1 d2", c = n == 0 ? "" : n == 1 ? "d1,a" : "d1,a d2,b"; if (n == 0) sym_reach("empty");
        switch (k[i]) { case 0: case 4: want += "tt.x"; break; case 1: want += "tt"; break; case 2: case 5: want += all; break; case 3: case 6: case 9: want += newer; break; case 7: want += "."; break; case 8: want += r; break; case 10: want += "$@"; sym_reach("escaped"); break; case 11: want += "$(**)"; sym_reach("escaped"); break; case 12: want += c; break; }
        if (gap && !i) { t += "-"; want += "-"; }
    }
    Mk mk; sym_assert(mk.read(t + "q\n"), "the makefile is read"); expectCommands(mk.t("tt.x"), QList<QByteArray>() << want + "q");
}
extern "C" void E_single()
{
    static const char *const I[] = { "$**", "$?", "$(**R)", "$(?:.=,)", "$@ $**" };
    int n = rt_choose("n", 4), k = rt_choose("k", 5); bool newer[3], other = rt_bool("other"); QByteArray t = "tt:"; rt_file("tt", "x", true, 5); QList<QByteArray> want; if (other) want << "first";
    for (int i = 0; i < n; ++i) {
        QByteArray d = "d" + QByteArray::number(i) + (i == 2 ? " .x" : ".x"), r = "d" + QByteArray::number(i) + (i == 2 ? " " : ""), v; newer[i] = rt_bool("newer"); rt_file(d, "x", true, newer[i] ? 6 : 4); t += " \"" + d + "\"";
        switch (k) { case 0: v = quoted(d); break; case 1: v = newer[i] ? quoted(d) : ""; break; case 2: v = quoted(r); break; case 3: v = newer[i] ? quoted(r + ",x") : ""; break; default: v = "tt " + quoted(d); }
        want << "p " + v + ".";
    }
    if (other) want << "last"; t += "\n"; if (other) t += "\tfirst\n"; t += QByteArray("\t!p ") + I[k] + ".\n"; if (other) t += "\tlast\n";
    Mk mk; sym_assert(mk.read(t), "the makefile is read"); sym_reach(n ? "runs" : "none"); expectCommands(mk.t("tt"), want);
}
extern "C" void E_dependent()
{
    static const char *const I[] = { "$$@.c", "$$(@).c", "$$(@B).c", "$$(@R).c", "$$(@F).c", "$$(@D)", "$*.c", "$$(@:x=y)", "$$(@R:x=y).c", "q/$$@", "q/$$(@)" };
    int k = rt_choose("k", 11); bool last = rt_bool("last"); QByteArray n = "x" + rt_bytes("c", "ab", 1) + "x.o", w, e = rt_bool("dir") ? "s/" : ""; n = e + n; bool second = rt_bool("second");
    switch (k) { case 0: case 1: w = n + ".c"; break; case 2: w = modified(n, 'B') + ".c"; break; case 3: case 6: w = modified(n, 'R') + ".c"; break; case 4: w = modified(n, 'F') + ".c"; break; case 5: if (!e.isEmpty()) return; w = "."; break; case 7: w = replaced(n, "x", "y"); break; case 8: w = replaced(modified(n, 'R'), "x", "y") + ".c"; break; case 9: case 10: w = "q/" + n; break; }
    Mk mk; sym_assert(mk.read("first:\n" + n + (second ? " other.o" : "") + ": d1 " + I[k] + (last ? "\n" : " d2\n")), "the makefile is read"); DescriptionBlock *b = mk.m->target(QString::fromLatin1(n)); sym_assert(b != nullptr, "the target is known");
    sym_assert(b->m_dependents.size() == (last ? 2 : 3) && sameText(b->m_dependents.at(1), w), "file name macros in dependents stand for the target"); rt_observe("dep", b->m_dependents.at(1)); sym_reach("ok");
}
