// @entry: E_sources time=250 ttime=1500 reach=cmd,env,make,undef,selfref,both
// @entry: E_envValue time=120 ttime=600 reach=rejected,defined,expanded
// @entry: E_cmdValue time=100 ttime=600 reach=defined
// @entry: E_redefine time=100 ttime=600 reach=new,kept
// @entry: E_predefined time=60 ttime=300 reach=overridden,builtin
// @entry: E_named time=100 ttime=600 reach=indirect,self,builtUp,undefName
// @bound: one variable in two spellings: environment absent or either spelling, up to 2 command-line definitions in either spelling and order, /E on or off, up to 3 (thorough 4) makefile lines from { X=v, x=v, X=$(X)v, !UNDEF X }, values are arbitrary characters
// @bound: environment and command-line values of up to 4 (6) characters over { $ ( ) X a + blank }
// @bound: up to 3 (4) definitions drawn from N=XX, N=Y, $(N)=v, $(N)=$(X..)v, $N=v, X$(N)=$(N)v, XX$(U)=v, N undefined or not, values are arbitrary characters
// @outside: environment variables with the names of predefined macros (see C33); the environment handed to commands when both spellings are given on the command line (unspecified); several definitions of the same spelling on the command line
#include "ref_macro.h"
#include "makefilefactory.h"
static Makefile *readAll(const QStringList &env, const QStringList &args, const QByteArray &text, MakefileFactory &f)
{
    rt_file("mf", text); f.setEnvironment(env);
    QStringList a = args; a << R_("/f") << R_("mf");
    bool ok = f.apply(a); sym_assert(ok, "makefile is read");
    return f.makefile();
}
static QByteArray chr(const char *n) { char c = (char)rt_byte(n); sym_assume((c >= 'a') & (c <= 'z')); return QByteArray(1, c); }
static QString envOf(const MacroTable *mt, const char *name) { return mt->environment().value(QString(R_(name))); }
extern "C" void E_sources()
{
    int e = rt_choose("env", 3); QByteArray ev = chr("ev");
    QStringList env; if (e) env << QString::fromLatin1((e == 1 ? "X=" : "x=") + ev);
    bool over = rt_bool("E"); QStringList args; if (over) args << R_("/E");
    bool hasX = false, hasx = false; QByteArray vX, vx; int c = rt_choose("cmd", 5);
    if (c == 1 || c == 3) { hasX = true; vX = chr("cX"); args << QString::fromLatin1("X=" + vX); }
    if (c >= 2) { hasx = true; vx = chr("cx"); args << QString::fromLatin1("x=" + vx); }
    if (c == 4) { hasX = true; vX = chr("cX"); args << QString::fromLatin1("X=" + vX); }
    // reference state: X and x
    bool dX = false, roX = false, envX = false, dx = false, rox = false; QByteArray valX, valx, envVal; bool envDef = false;
    if (hasX) { dX = roX = true; valX = vX; } else if (hasx) { dX = roX = true; valX = vx; }
    if (hasx) { dx = rox = true; valx = vx; }
    if (!dX && e) { dX = true; roX = over; valX = ev; envX = true; }
    if (dX) { envDef = true; envVal = valX; }
    int n = rt_choose("n", TIER == 2 ? 5 : 4); QByteArray text; bool self = false, undef = false, make = false;
    for (int i = 0; i < n; ++i) {
        int k = rt_choose("k", 4); QByteArray v = k < 3 ? chr("v") : QByteArray();
        if (k == 0) text += "X=" + v + "\n"; else if (k == 1) text += "x = " + v + "\n"; else if (k == 2) text += "X=$(X)" + v + "\n"; else text += "!UNDEF X\n";
        if (k == 3) { dX = roX = envX = false; valX.clear(); undef = true; }
        else if (k == 1) { if (!rox) { dx = true; valx = v; make = true; } }
        else if (!roX) { QByteArray nv = k == 2 ? valX + v : v; if (k == 2) self = true; make = true; dX = true; valX = nv; if (envX) { envDef = true; envVal = nv; } }
    }
    MakefileFactory f; Makefile *m = readAll(env, args, text + "tt: dd\n", f); const MacroTable *mt = m->macroTable();
    QString gX = mt->macroValue(R_("X")), gx = mt->macroValue(R_("x")); rt_observe("X", gX); rt_observe("x", gx); rt_observe("env", envOf(mt, "X"));
    sym_assert(mt->isMacroDefined(R_("X")) == dX, "X is defined iff some source defines it"); sym_assert(mt->isMacroDefined(R_("x")) == dx, "x is defined iff some source defines it");
    sym_assert(sameText(gX, valX), "value of X"); sym_assert(sameText(gx, valx), "value of x");
    sym_assert(mt->expandMacros(R_("<$X>")).size() == valX.size() + 2, "X expands to its value");
    if (!(hasX && hasx)) { sym_assert(sameText(envOf(mt, "X"), envVal), "environment variable X of commands"); sym_assert(mt->environment().contains(R_("x")) == envDef, "environment has X iff it was inherited or given on the command line"); }
    if (hasX || hasx) sym_reach("cmd"); if (envX) sym_reach("env"); if (make) sym_reach("make"); if (undef) sym_reach("undef"); if (self) sym_reach("selfref"); if (hasX && hasx) sym_reach("both");
}
// a value of the environment that cannot be expanded defines no macro; otherwise macro = text, environment variable = expanded text
extern "C" void E_envValue()
{
    QByteArray v = rt_bytes("v", "$()Xa+", rt_choose("n", TIER == 2 ? 7 : 5));
    RefTable none; QByteArray ex; bool ok = refExpand(none, v, false, QList<QByteArray>(), &ex);
    for (int i = 0; i + 1 < v.size(); ++i) sym_assume(!((v.at(i) == '$') & (v.at(i + 1) == '(')) || ok); // self reference: see E_sources
    MakefileFactory f; Makefile *m = readAll(QStringList() << QString::fromLatin1("X=" + v), QStringList(), "tt: dd\n", f); const MacroTable *mt = m->macroTable();
    sym_assert(mt->isMacroDefined(R_("X")) == ok, "macro exists iff its value can be expanded");
    rt_observe("env", envOf(mt, "X")); rt_observe("macro", mt->macroValue(R_("X")));
    if (!ok) { sym_assert(sameText(envOf(mt, "X"), v), "environment variable stays as it is"); sym_reach("rejected"); return; }
    bool self = false; for (int i = 0; i + 3 < v.size(); ++i) if (v.at(i) == '$' && v.at(i + 1) == '(' && v.at(i + 2) == 'X' && v.at(i + 3) == ')') self = true;
    if (!self) sym_assert(sameText(mt->macroValue(R_("X")), v), "macro has the text of the variable");
    sym_assert(sameText(envOf(mt, "X"), ex), "environment variable has the expanded text"); sym_reach("defined"); if (ex.size() != v.size()) sym_reach("expanded");
}
extern "C" void E_cmdValue()
{
    QByteArray v = rt_bytes("v", "$a =", rt_choose("n", TIER == 2 ? 7 : 5));
    QByteArray want = refLTrim(v), wantEnv;
    RefTable none; bool ok = refExpand(none, want, false, QList<QByteArray>(), &wantEnv); sym_assume(ok);
    MakefileFactory f; Makefile *m = readAll(QStringList(), QStringList() << QString::fromLatin1("Foo=" + v), "Foo=mk\nFOO=mk\ntt: dd\n", f); const MacroTable *mt = m->macroTable();
    rt_observe("macro", mt->macroValue(R_("Foo")));
    sym_assert(sameText(mt->macroValue(R_("Foo")), want), "command-line value with everything after the first ="); sym_assert(sameText(mt->macroValue(R_("FOO")), want), "upper-case form has the same value");
    sym_assert(sameText(envOf(mt, "FOO"), wantEnv), "environment has the expanded value");
    sym_reach("defined");
}
// redefinition of an inherited variable with a value that refers to it and to another macro
extern "C" void E_redefine()
{
    QByteArray ev = chr("ev"), ov = chr("ov"); bool over = rt_bool("E"); int form = rt_choose("form", 3);
    QByteArray def = form == 0 ? "$(V);$(O)" : form == 1 ? "$(O)$$" : "$(V)$(V)";
    QStringList args; if (over) args << R_("/E");
    MakefileFactory f; Makefile *m = readAll(QStringList() << QString::fromLatin1("v=" + ev), args, "O=" + ov + "\nV=" + def + "\ntt: dd\n", f); const MacroTable *mt = m->macroTable();
    QByteArray want = over ? ev : form == 0 ? ev + ";" + ov : form == 1 ? ov + "$" : ev + ev;
    rt_observe("env", envOf(mt, "V"));
    sym_assert(sameText(mt->expandMacros(R_("$(V)")), want), "macro after redefinition"); sym_assert(sameText(envOf(mt, "V"), want), "environment of commands after redefinition");
    sym_reach(over ? "kept" : "new");
}
extern "C" void E_predefined()
{   // predefined macros give way to the command line and to the makefile and exist unless /R
    QByteArray v = chr("v"); int k = rt_choose("k", 3); bool r = rt_bool("R");
    QStringList args; if (r) args << R_("/R"); if (k == 1) args << QString::fromLatin1("CC=" + v);
    MakefileFactory f; Makefile *m = readAll(QStringList(), args, k == 2 ? "CC=" + v + "\ntt: dd\n" : QByteArray("tt: dd\n"), f);
    QByteArray want = k ? v : r ? QByteArray() : QByteArray("cl");
    sym_assert(sameText(m->macroTable()->macroValue(R_("CC")), want), "value of CC"); sym_assert(sameText(m->macroTable()->macroValue(R_("RC")), r ? "" : "rc"), "value of RC");
    sym_reach(k ? "overridden" : "builtin");
}
// the name on the left is expanded first; $(name) on the right is the old value of the macro that is defined
extern "C" void E_named()
{
    static const char *const L[] = { "N=XX", "N=Y", "$(N)=", "$(N)=$(XX)", "$(N) = $(Y)", "$N=$(XX)", "X$(N)=$(XY)$(Y)", "XX$(U)=$(XX)" };
    QByteArray text = "N=Y\nXX=p\nY=q\nXY=r\n"; RefTable T; int n = 1 + rt_choose("n", TIER == 2 ? 4 : 3);
    QList<QByteArray> names, vals; names << "N" << "XX" << "Y" << "XY" << "XXX"; vals << "Y" << "p" << "q" << "r" << "";
    for (int i = 0; i < n; ++i) {
        int k = rt_choose("k", 8); QByteArray v = k < 2 ? QByteArray() : chr("v"); text += L[k] + v + "\n";
        if (k < 2) { vals[0] = k ? "Y" : "XX"; continue; }
        QByteArray name = k == 6 ? "X" + vals.at(0) : k == 7 ? QByteArray("XX") : vals.at(0); int at = names.indexOf(name);
        // only the references to the macro itself are replaced now, the others when the macro is used
        QByteArray rhs = k == 2 ? "" : k == 4 ? "$(Y)" : k == 6 ? "$(XY)$(Y)" : "$(XX)", stored;
        for (int j = 0; j < rhs.size();) { int e = rhs.indexOf(')', j) + 1; QByteArray ref = rhs.mid(j, e - j), rn = ref.mid(2, ref.size() - 3); if (rn == name) { stored += vals.at(at); sym_reach("self"); } else stored += ref; j = e; }
        vals[at] = stored + v; sym_reach(k == 6 ? "builtUp" : k == 7 ? "undefName" : "indirect");
    }
    MakefileFactory f; Makefile *m = readAll(QStringList(), QStringList(), text + "tt: dd\n", f); const MacroTable *mt = m->macroTable();
    for (int i = 0; i < names.size(); ++i) {
        QString g = mt->macroValue(QString::fromLatin1(names.at(i))); rt_observe("v", g); sym_assert(sameText(g, vals.at(i)), "value of the macro whose name was built up");
    }
}
