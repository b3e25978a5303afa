// @entry: E_text time=200 ttime=1500 reach=error,changed,file
// @entry: E_dep time=120 ttime=900 reach=error,file,changed
// @entry: E_tables time=200 ttime=1500 reach=error,changed,deep
// @entry: E_cycle time=150 ttime=900 reach=error,ok,deep
// @entry: E_subst time=200 ttime=1500 reach=error,replaced,escaped
// @entry: E_substValue time=150 ttime=900 reach=replaced,twice
// @bound: text of up to 6 (thorough 8) characters over { $ ( ) A B x @ : } with a table of macros whose values refer to each other; the same for dependency lines
// @bound: three macros with arbitrary values of up to 2-3 characters over { $ A B x ( ) }; chains over four macros, each value two references or texts
// @bound: substitutions: every statement of up to 5 (7) characters over { a b = ^ ) } applied to every value of up to 3 characters
// @outside: substitution statements with no or several = signs or an empty left side, ^= and ^^ (not specified); names with characters other than letters
#include "ref_macro.h"
static void define(MacroTable &mt, RefTable &T, const QByteArray &name, const QByteArray &value)
{
    mt.setMacroValue(QString::fromLatin1(name), QString::fromLatin1(value));
    // a definition that mentions itself as $(name) takes the old value (C04); here the table is what is stored
    T.names.append(name); T.values.append(mt.macroValue(QString::fromLatin1(name)).toLatin1());
}
static void check(const MacroTable &mt, const RefTable &T, const QByteArray &text, bool dep)
{
    QByteArray want; bool ok = refExpand(T, text, dep, QList<QByteArray>(), &want);
    bool failed = false; QString got;
    try { got = mt.expandMacros(QString::fromLatin1(text), dep); } catch (Exception &) { failed = true; }
    sym_assert(failed == !ok, ok ? "valid text is expanded" : "invalid text is an error");
    if (failed) sym_reach("error");
    else {
        rt_observe("text", got); sym_assert(sameExpanded(got, want), "expanded text"); sym_reach("ok"); if (want.size() != text.size()) sym_reach("changed");
        // again: nothing is left behind by the first expansion
        QString again = mt.expandMacros(QString::fromLatin1(text), dep); sym_assert(rt_eq(again, got), "second expansion gives the same");
    }
    for (int i = 0; i < T.names.size(); ++i) sym_assert(sameText(mt.macroValue(QString::fromLatin1(T.names.at(i))), T.values.at(i)), "expansion changes no macro");
}
extern "C" void E_text()
{
    MacroTable mt; RefTable T; define(mt, T, "A", "xx"); define(mt, T, "B", "$(A)$@y"); define(mt, T, "AB", "$B$$"); define(mt, T, "x", "$(x)$x");
    check(mt, T, rt_bytes("t", "$()ABx@:", rt_choose("n", TIER == 2 ? 9 : 7)), false);
}
extern "C" void E_dep()
{
    MacroTable mt; RefTable T; define(mt, T, "A", "$$@"); define(mt, T, "B", "$(A)$(@D)y");
    check(mt, T, rt_bytes("t", "$()AB@D", rt_choose("n", TIER == 2 ? 8 : 6)), true);
}
extern "C" void E_tables()
{
    MacroTable mt; RefTable T; const int k = TIER == 2 ? 4 : 3;
    define(mt, T, "A", rt_bytes("a", "$ABx()", rt_choose("na", k + 1))); define(mt, T, "B", rt_bytes("b", "$ABx()", rt_choose("nb", k))); define(mt, T, "x", rt_bytes("x", "$AB", rt_choose("nx", 3)));
    check(mt, T, rt_bool("form") ? "-$(A)$B" : "$x.$B", false);
}
extern "C" void E_cycle()
{   // four macros; every value is two pieces
    static const char *piece[] = { "", "t", "$A", "$(B)", "$(C:t=u)", "$D" };
    static const char *name[] = { "A", "B", "C", "D" };
    MacroTable mt; RefTable T; int used = TIER == 2 ? 4 : 3;
    for (int i = 0; i < used; ++i) { QByteArray v = piece[rt_choose("p", 6)]; if (i < 2 || TIER == 2) v += piece[rt_choose("q", 6)]; define(mt, T, name[i], v); }
    check(mt, T, "$A-$(B)", false);
}
extern "C" void E_subst()
{
    MacroTable mt; RefTable T; define(mt, T, "A", "ab)a");
    check(mt, T, "$(A:" + rt_bytes("s", "ab=^)", rt_choose("n", TIER == 2 ? 8 : 6)) + "c)z)", false);
}
extern "C" void E_substValue()
{
    MacroTable mt; RefTable T; define(mt, T, "A", rt_bytes("v", "ab", rt_choose("nv", TIER == 2 ? 6 : 5)));
    check(mt, T, "$(A:" + rt_bytes("l", "ab", 1 + rt_choose("nl", 3)) + "=" + rt_bytes("r", "ab", rt_choose("nr", 3)) + ")", rt_bool("dep"));
}
