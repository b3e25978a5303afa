// @entry: E_macro time=120 ttime=900 reach=comment,escaped,both,plain
// @entry: E_message time=100 ttime=600 reach=comment,escaped
// @entry: E_undef time=60 ttime=300 reach=comment
// @entry: E_dot time=100 ttime=600 reach=comment,two
// @entry: E_suffixes time=60 ttime=300 reach=comment
// @entry: E_rule time=60 ttime=300 reach=comment
// @entry: E_depline time=200 ttime=1500 reach=comment,escaped,quoted,command
// @entry: E_targets time=100 ttime=600 reach=quoted,escaped,comment,command
// @entry: E_depcmd time=150 ttime=900 reach=hash
// @bound: macro value, !MESSAGE text: every text of up to 7 (thorough 9) characters over { # ^ a blank " }
// @bound: dependency line: every text after the colon of up to 6 (8) characters over { # ^ a blank " ; }
// @bound: names of targets: a quoted name of up to 3 (4) characters over { # b ; } or one with ^# at any place, alone, in front of or behind other names, then a dependent and up to 3 (5) characters over { # a " ; blank }
// @bound: dot directives, inference rule heads, !UNDEF: every tail of up to 5 (7) characters over { # ^ a blank }
// @outside: unbalanced double quotes in a dependency line, ^# inside double quotes of a dependency line (not specified), lines ending in ^ (line continuation, see C01)
#include "mk.h"
// reference: text before the first # that is not escaped; ^# is #
static QByteArray refComment(const QByteArray &v, bool *com, bool *esc)
{
    QByteArray o; *com = *esc = false;
    for (int i = 0; i < v.size(); ++i) {
        if (v.at(i) == '^' && i + 1 < v.size() && v.at(i + 1) == '#') { o += '#'; ++i; *esc = true; }
        else if (v.at(i) == '#') { *com = true; break; }
        else o += v.at(i);
    }
    return refTrim(o);
}
static void note(bool com, bool esc) { if (com) sym_reach("comment"); if (esc) sym_reach("escaped"); if (com && esc) sym_reach("both"); if (!com && !esc) sym_reach("plain"); }
static QByteArray tail(const char *set, int n) { QByteArray c = rt_bytes("c", set, n); if (n) sym_assume(c.at(n - 1) != '^'); return c; }
extern "C" void E_macro()
{
    QByteArray v = tail("#^a \"", rt_choose("n", TIER == 2 ? 10 : 8)); bool com, esc;
    QByteArray want = refComment(v, &com, &esc);
    rt_file("mf", "X=" + v + "\n");
    MacroTable mt; Preprocessor pp; pp.setMacroTable(&mt);
    try { pp.openFile(R_("mf")); QString l = pp.readLine(); sym_assert(l.isNull(), "definition line is consumed"); } catch (Exception &) { sym_fail("definition is rejected"); }
    QString got = mt.macroValue(R_("X")); rt_observe("value", got);
    sym_assert(sameText(got, want), "macro value without the comment");
    note(com, esc);
}
extern "C" void E_message()
{
    QByteArray v = tail("#^a \"", rt_choose("n", TIER == 2 ? 9 : 7)); bool com, esc;
    QByteArray want = refComment(v, &com, &esc);
    rt_file("mf", "!MESSAGE " + v + "\nend\n");
    MacroTable mt; Preprocessor pp; pp.setMacroTable(&mt);
    try { pp.openFile(R_("mf")); sym_assert(sameText(pp.readLine(), "end"), "directive line is consumed"); } catch (Exception &) { sym_fail("message is rejected"); }
    rt_observe("out", rt_stdout());
    sym_assert(rt_eqb(rt_stdout(), want + "\n"), "message without the comment");
    note(com, esc);
}
extern "C" void E_undef()
{
    QByteArray v = tail("#a ", rt_choose("n", TIER == 2 ? 7 : 5)); bool com, esc;
    QByteArray want = refComment("X" + v, &com, &esc);
    MacroTable mt; Preprocessor pp; pp.setMacroTable(&mt); mt.setMacroValue(R_("X"), R_("v")); mt.setMacroValue(R_("Xa"), R_("v"));
    rt_file("mf", "!UNDEF X" + v + "\n!IFDEF Y" + v + "\nno\n!ENDIF" + (v.startsWith('a') ? "" : v) + "\nend\n");
    mt.setMacroValue(R_("Xaa"), R_("v"));
    try { pp.openFile(R_("mf")); sym_assert(sameText(pp.readLine(), "end"), "directives are consumed"); } catch (Exception &) { sym_fail("directive is rejected"); }
    sym_assert(mt.isMacroDefined(R_("X")) == (want != "X"), "X undefined iff named"); sym_assert(mt.isMacroDefined(R_("Xa")) == (want != "Xa"), "Xa undefined iff named");
    note(com, esc);
}
static QList<QByteArray> refWords(const QByteArray &s)
{
    QList<QByteArray> l; QByteArray cur;
    for (int i = 0; i <= s.size(); ++i) if (i == s.size() || s.at(i) == ' ' || s.at(i) == '\t') { if (!cur.isEmpty()) l.append(cur); cur.clear(); } else cur += s.at(i);
    return l;
}
extern "C" void E_dot()
{
    QByteArray v = tail("#^a ", rt_choose("n", TIER == 2 ? 8 : 6)); bool com, esc;
    QList<QByteArray> w = refWords(refComment(v, &com, &esc)), u;
    for (int i = 0; i < w.size(); ++i) if (!u.contains(w.at(i))) u.append(w.at(i));
    Mk mk; sym_assert(mk.read(".PRECIOUS: " + v + "\ntt: d\n"), "accepted");
    for (const QString &s : mk.m->preciousTargets()) rt_observe("p", s);
    sym_assert(sameList(mk.m->preciousTargets(), u), "precious targets are the names before the comment");
    sym_assert(mk.m->targets().size() == 1, "only t is a target");
    note(com, esc); if (u.size() == 2) sym_reach("two");
}
extern "C" void E_suffixes()
{   // a comment after .SUFFIXES: must not count as suffix, and must not keep an empty list from clearing
    QByteArray v = tail("#a ", rt_choose("n", TIER == 2 ? 7 : 5)); bool com, esc;
    QByteArray names = refComment(v, &com, &esc);
    Mk mk; sym_assert(mk.read(".SUFFIXES: " + v + "\n.c.obj:\n\tcc\ntt.obj: d\n"), "accepted");
    sym_assert(mk.m->inferenceRules().size() == 1, "one rule");
    int pr = mk.m->inferenceRules().at(0)->m_priority; sym_observe_int("prio", pr);
    sym_assert((pr < 0) == names.isEmpty(), "suffix list is cleared iff no name is given before the comment");
    note(com, esc);
}
extern "C" void E_rule()
{
    QByteArray v = tail("#a;", rt_choose("n", TIER == 2 ? 7 : 5));
    Mk mk; sym_assert(mk.read(".c.obj:#" + v + "\n\tcc\ntt.obj: d\n"), "accepted");
    sym_assert(mk.m->inferenceRules().size() == 1, "a comment after an inference rule head is ignored");
    sym_assert(mk.m->inferenceRules().at(0)->m_commands.size() == 1, "with its command"); sym_assert(mk.m->targets().size() == 1, "rule is not a target");
    sym_reach("comment");
}
// text after "tt :"
static void depline(const QByteArray &v, bool semicolonOnly)
{
    QList<QByteArray> deps; QByteArray cur, cmd; bool q = false, com = false, esc = false, sep = false; int i = 0; bool hash = false, quoted = false;
    QByteArray o;
    for (; i < v.size(); ++i) {
        char c = v.at(i);
        if (c == '^' && i + 1 < v.size() && v.at(i + 1) == '#') { sym_assume(!q); o += '#'; ++i; esc = true; continue; }
        if (c == '"') q = !q;
        else if (c == '#' && q) quoted = true;
        if (!q && c == '#') { com = true; break; }
        if (!q && c == ';') { sep = true; cmd = refTrim(v.mid(i + 1)); hash = cmd.contains('#'); break; }
        o += c;
    }
    if (semicolonOnly) sym_assume(sep);
    sym_assume(!q); o = refTrim(o);
    for (i = 0; i <= o.size(); ++i) {
        if (i < o.size() && o.at(i) == '"') q = !q;
        if (i == o.size() || (!q && o.at(i) == ' ')) {
            QByteArray n = refTrim(cur); if (n.size() >= 2 && n.startsWith('"') && n.endsWith('"')) n = n.mid(1, n.size() - 2);
            if (!n.isEmpty()) deps.append(n);
            cur.clear();
        } else cur += o.at(i);
    }
    Mk mk; sym_assert(mk.read("tt : " + v + "\nxx: y\n"), "accepted");
    DescriptionBlock *t = mk.t("tt"); observeTarget(t);
    sym_assert(t != nullptr, "target exists"); sym_assert(mk.t("xx") != nullptr, "next line is read"); sym_assert(mk.m->targets().size() == 2, "no other target");
    sym_assert(sameList(t->m_dependents, deps), "dependents before comment and command");
    int s = 0; while (s < cmd.size() && (cmd.at(s) == '@' || cmd.at(s) == '-' || cmd.at(s) == '!')) ++s;
    sym_assert(t->m_commands.size() == (sep ? 1 : 0), "one command iff a command separator is given");
    if (sep) sym_assert(sameText(t->m_commands.at(0).m_commandLine, cmd), "command text is everything after the separator");
    note(com, esc); if (quoted) sym_reach("quoted"); if (sep) sym_reach("command"); if (hash) sym_reach("hash");
}
extern "C" void E_depline() { depline(tail("#^a \";", rt_choose("n", TIER == 2 ? 9 : 7)), false); }
extern "C" void E_depcmd() { depline(tail("#^a \";", rt_choose("n", TIER == 2 ? 5 : 4)) + ";" + tail("#^a \";", rt_choose("m", TIER == 2 ? 6 : 4)), true); }
// # and ; in the names of targets
extern "C" void E_targets()
{
    bool q = rt_bool("quoted"); int front = rt_choose("front", 3), back = rt_choose("back", 3); QByteArray n; QList<QByteArray> want; QByteArray l;
    if (q) { n = rt_bytes("c", "#b;", 1 + rt_choose("n", TIER == 2 ? 4 : 3)); if (front) want << QByteArray(front == 1 ? "xx" : "x#"); want << n; l = QByteArray(front == 1 ? "xx " : front == 2 ? "\"x#\" " : "") + "\"" + n + "\""; }
    else { int k = rt_choose("at", 3); n = QByteArray("ab").left(k) + "#" + QByteArray("ab").mid(k); QByteArray e = n; e.replace("#", "^#"); if (front) want << QByteArray(front == 1 ? "xx" : "x#"); want << n; l = QByteArray(front == 1 ? "xx " : front == 2 ? "\"x#\" " : "") + e; sym_reach("escaped"); }
    if (back) { want << QByteArray(back == 1 ? "yy" : "y;#"); l += back == 1 ? " yy" : " \"y;#\""; }
    QByteArray v = rt_bytes("t", "#a\"; ", rt_choose("m", TIER == 2 ? 6 : 4)), o, cmd; bool iq = false, com = false, sep = false;
    for (int i = 0; i < v.size(); ++i) { char c = v.at(i); if (c == '"') iq = !iq; if (!iq && c == '#') { com = true; break; } if (!iq && c == ';') { sep = true; cmd = refTrim(v.mid(i + 1)); break; } o += c; }
    sym_assume(!iq && o.count('"') == 0); QList<QByteArray> d = refWords("dd" + o);
    Mk mk; sym_assert(mk.read(l + " : dd" + v + "\nzz: y\n"), "the line is accepted"); sym_assert(mk.t("zz") != nullptr && mk.m->targets().size() == want.size() + 1, "every name is a target");
    for (const QByteArray &w : want) { DescriptionBlock *t = mk.m->target(QString::fromLatin1(w)); sym_assert(t != nullptr, "# in quotes and ^# belong to the name"); sym_assert(sameList(t->m_dependents, d), "dependents before comment and command"); sym_assert(t->m_commands.size() == (sep ? 1 : 0) && (!sep || sameText(t->m_commands.at(0).m_commandLine, cmd)), "the command behind the separator"); }
    if (q) sym_reach("quoted"); if (com) sym_reach("comment"); if (sep) sym_reach("command");
}
