// @entry: E_line time=200 ttime=1500 reach=ok,double,semicolon,quoted,drive
// @entry: E_drive time=60 ttime=300 reach=ok
// @entry: E_names time=100 ttime=600 reach=ok
// @entry: E_blocks time=100 ttime=900 reach=ok,mixed,accumulate
// @entry: E_multi time=60 ttime=600 reach=ok,mixed
// @entry: E_cmds time=150 ttime=900 reach=ok,two
// @entry: E_inplace time=60 ttime=300 reach=ok
// @entry: E_mod time=60 ttime=300 reach=ok
// @bound: every dependency line of up to 7 (thorough 9) characters over { a : ; " blank }; target and dependent lists of up to 6 (8) characters around a fixed separator; drive letters at every position of a two-name skeleton
// @bound: every sequence of up to 3 (4) blocks for two targets with : or ::, with and without dependents and commands; three targets on one line, one of them defined before and one defined again, with equal or different separators; up to 4 (5) lines after a dependency line, each blank, comment, indented with an arbitrary two-character command, or a new block
// @outside: quotes inside a name, unbalanced quotes, colons in a quoted name other than after a drive letter, a ; before the separator, one-letter target names directly before the separator (drive letters), an empty command after ;, a blank line between the dependency line and its first command
#include "mk.h"
struct Names { QList<QByteArray> l; bool ok; };
// white space separated names; quotes group and are removed
static Names names(const QByteArray &s)
{
    Names n; n.ok = true; int i = 0;
    while (i < s.size()) {
        if (s.at(i) == ' ' || s.at(i) == '\t') { ++i; continue; }
        QByteArray cur; bool q = s.at(i) == '"'; if (q) ++i;
        for (; i < s.size(); ++i) { char c = s.at(i); if (c == '"') break; if (!q && (c == ' ' || c == '\t')) break; cur += c; }
        if (q) { if (i >= s.size()) { n.ok = false; return n; } ++i; if (i < s.size() && s.at(i) != ' ' && s.at(i) != '\t') { n.ok = false; return n; } if (cur.isEmpty() || cur.startsWith(' ') || cur.endsWith(' ')) { n.ok = false; return n; } }
        else if (i < s.size() && s.at(i) == '"') { n.ok = false; return n; }
        if (!cur.isEmpty()) n.l.append(cur);
    }
    return n;
}
static bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static QByteArray lower(QByteArray s) { for (int i = 0; i < s.size(); ++i) if (s.at(i) >= 'A' && s.at(i) <= 'Z') s[i] = char(s.at(i) + 32); return s; }
static void expectTarget(Mk &mk, const QByteArray &name, const QList<QByteArray> &deps, const QList<QByteArray> &cmds)
{
    DescriptionBlock *b = mk.m->target(QString::fromLatin1(name)); sym_assert(b != nullptr, "every named target exists"); observeTarget(b);
    sym_assert(sameList(b->m_dependents, deps), "dependents of the target");
    sym_assert(b->m_commands.size() == cmds.size(), "number of commands"); for (int i = 0; i < cmds.size(); ++i) sym_assert(sameText(b->m_commands.at(i).m_commandLine, cmds.at(i)), "commands in order");
}
// the whole of line (no escapes, comments or macros in it)
static void checkLine(const QByteArray &line)
{
    if (line.isEmpty() || line.at(0) == ' ' || line.at(0) == '\t') return;
    int sep = -1, semi = -1, q = 0;
    for (int i = 0; i < line.size(); ++i) {
        if (line.at(i) == '"') ++q;
        if (line.at(i) == ';' && !(q & 1) && semi < 0) semi = i;
    }
    q = 0;
    for (int i = 0; i < line.size(); ++i) {
        if (line.at(i) == '"') ++q;
        if (line.at(i) != ':') continue;
        bool drive = i >= 1 && letter(line.at(i - 1)) && (i == 1 || line.at(i - 2) == ' ' || line.at(i - 2) == '\t' || line.at(i - 2) == '"');
        if (drive) { sym_reach("drive"); continue; }
        if (q & 1) return;
        sep = i; break;
    }
    if (q & 1) return;
    int nq = 0; for (int i = 0; i < line.size(); ++i) if (line.at(i) == '"' && (semi < 0 || i < semi)) ++nq;
    if (nq & 1) return;
    Mk mk; 
    if (sep < 0) { mk.read(line + "\nuu: x\n"); sym_assert(mk.failed, "a line without separator is an error"); return; }
    if (semi >= 0 && semi < sep) return;
    int len = sep + 1 < line.size() && line.at(sep + 1) == ':' ? 2 : 1;
    Names t = names(line.left(sep)), d = names(line.mid(sep + len, (semi < 0 ? line.size() : semi) - sep - len)); if (!t.ok || !d.ok) return;
    for (int i = 0; i < t.l.size(); ++i) for (int j = 0; j < i; ++j) if (lower(t.l.at(i)) == lower(t.l.at(j))) return;
    for (const QByteArray &x : t.l) for (const QByteArray &y : d.l) if (lower(x) == lower(y)) return;   // a cycle
    QList<QByteArray> cmds; if (semi >= 0) { QByteArray c = refTrim(line.mid(semi + 1)); if (c.isEmpty()) return; cmds.append(c); } cmds.append("cmd");
    sym_assert(mk.read(line + "\n\tcmd\n\nuu: x\n"), "a dependency line is accepted");
    for (const QByteArray &n : t.l) expectTarget(mk, n, d.l, cmds);
    sym_assert(mk.m->targets().count() == t.l.size() + 1, "no other target is created");
    if (len == 2) sym_reach("double"); if (semi >= 0) sym_reach("semicolon"); if (q) sym_reach("quoted"); sym_reach("ok");
}
extern "C" void E_line() { checkLine(rt_bytes("c", "a:;\" ", rt_choose("n", TIER == 2 ? 10 : 8))); }
extern "C" void E_drive()
{
    static const char *const nm[] = { "c:\\f", "\"c:\\f g\"", "ff", "\"f\"", "C:f" }, *const dm[] = { "d:\\f", "\"d:\\f g\"", "gg", "\"g\"", "D:f" };
    QByteArray t = nm[rt_choose("t", 5)], t2 = rt_bool("two") ? QByteArray(" ") + nm[rt_choose("u", 5)] : QByteArray(), d = dm[rt_choose("d", 5)], d2 = dm[rt_choose("e", 5)];
    bool sp = rt_bool("sp"), dbl = rt_bool("dbl"), ds = rt_bool("dsp"); QByteArray all = t + t2;
    QByteArray line = all + (sp ? " " : "") + (dbl ? "::" : ":") + (ds ? " " : "") + d + "  " + d2;
    Names n = names(all), m = names(d + " " + d2); for (int i = 1; i < n.l.size(); ++i) if (n.l.at(0) == n.l.at(1)) return;
    Mk mk; sym_assert(mk.read(line + "\n\tcmd\n"), "drive letters are no separators"); QList<QByteArray> c; c.append("cmd");
    for (const QByteArray &x : n.l) expectTarget(mk, x, m.l, c);
    sym_assert(mk.m->targets().count() == n.l.size(), "no other target is created"); sym_reach("ok");
}
// lists of names
extern "C" void E_names()
{
    bool left = rt_bool("left"); QByteArray v = rt_bytes("c", "ab\" \t", rt_choose("n", TIER == 2 ? 8 : 6)); Names n = names(v); if (!n.ok) return;
    QByteArray l = left ? "zz " + v + " : dd ee" : QByteArray("zz: dd ") + v + "\tee";
    QList<QByteArray> t, d; t.append("zz"); d.append("dd"); if (left) t += n.l; else d += n.l; d.append("ee");
    for (int i = 0; i < t.size(); ++i) { if (t.at(i).size() == 1 && i + 1 == t.size()) {} for (int j = 0; j < i; ++j) if (t.at(i) == t.at(j)) return; }
    Mk mk; sym_assert(mk.read(l + "\n\tcmd\n"), "accepted"); QList<QByteArray> c; c.append("cmd");
    for (const QByteArray &x : t) expectTarget(mk, x, d, c);
    sym_assert(mk.m->targets().count() == t.size(), "no other target is created"); sym_reach("ok");
}
// repeated blocks
extern "C" void E_blocks()
{
    int n = 1 + rt_choose("n", TIER == 2 ? 4 : 3); QByteArray text; bool err = false; int dbl[2] = { -1, -1 }; QList<QByteArray> deps[2], cmds[2];
    for (int i = 0; i < n && !err; ++i) {
        int k = rt_choose("t", 2); bool d = rt_bool("dbl"), dep = rt_bool("dep"); int nc = rt_choose("nc", 3); bool blank = rt_bool("blank");
        QByteArray dn = QByteArray("d") + (char)('0' + i) + "x"; QList<QByteArray> cs;
        text += QByteArray(k ? "uu" : "tt") + (d ? "::" : ":") + (dep ? " " + dn : QByteArray()) + "\n";
        for (int j = 0; j < nc; ++j) { QByteArray c = QByteArray("c") + (char)('0' + i) + (char)('a' + j); cs.append(c); text += "\t" + c + "\n"; }
        if (blank) text += "\n";
        if (dbl[k] >= 0 && dbl[k] != d) { err = true; break; }
        if (dbl[k] >= 0 && d && !cmds[k].isEmpty() && nc) sym_reach("accumulate");
        bool first = dbl[k] < 0; dbl[k] = d; if (dep) deps[k].append(dn);
        if (first || d || cmds[k].isEmpty()) cmds[k] += cs;
    }
    Mk mk; bool ok = mk.read(text);
    sym_assert(ok == !err, err ? "mixing : and :: for a target is an error" : "repeated blocks are accepted");
    if (err) { sym_reach("mixed"); return; }
    for (int k = 0; k < 2; ++k) if (dbl[k] >= 0) expectTarget(mk, k ? "uu" : "tt", deps[k], cmds[k]); else sym_assert(mk.t(k ? "uu" : "tt") == nullptr, "targets not named do not exist");
    sym_reach("ok");
}
// one line for several targets, one of them defined before
extern "C" void E_multi()
{
    bool d = rt_bool("dbl"), before = rt_bool("before"), bc = rt_bool("bc"), after = rt_bool("after"), cmd = rt_bool("cmd"), bd = before && rt_bool("other") ? !d : d; int who = after ? rt_choose("who", 3) : 1; bool ad = after && rt_bool("other") ? !d : d;
    static const char *const N[] = { "tt", "uu", "vv" }; static const char *const O[] = { "tt uu vv", "uu tt vv", "vv uu tt" }; QByteArray text, s = d ? "::" : ":"; QList<QByteArray> dt, ct, du, cu;
    if (before) { text += bd ? "tt:: d0\n" : "tt: d0\n"; dt.append("d0"); if (bc) { text += "\tc0\n"; ct.append("c0"); } }
    text += QByteArray(O[rt_choose("order", 3)]) + s + " d1\n"; dt.append("d1"); du.append("d1"); if (cmd) { text += "\tc1\n\tc2\n"; if (ct.isEmpty() || d) ct << "c1" << "c2"; cu << "c1" << "c2"; }
    QList<QByteArray> deps[3], cmds[3]; for (int i = 0; i < 3; ++i) { deps[i] = i ? du : dt; cmds[i] = i ? cu : ct; }
    if (after) { text += QByteArray(N[who]) + (ad ? "::" : ":") + " d2\n\tc3\n"; deps[who].append("d2"); if (cmds[who].isEmpty() || d) cmds[who].append("c3"); }
    Mk mk; bool ok = mk.read(text); if (bd != d || ad != d) { sym_assert(!ok, "mixing : and :: for a target is an error"); sym_reach("mixed"); return; }
    sym_assert(ok, "accepted"); for (int i = 0; i < 3; ++i) expectTarget(mk, N[i], deps[i], cmds[i]); sym_reach("ok");
}
// which lines are the commands
extern "C" void E_cmds()
{
    int n = rt_choose("n", TIER == 2 ? 6 : 5); QByteArray text = "tt: d0\n"; QList<QByteArray> c[2]; int cur = 0; bool sep = false, any = false;
    for (int i = 0; i < n; ++i) {
        int k = rt_choose("k", 5);
        if (k == 0) { if (!any) return; text += rt_bool("ws") ? "\n" : " \t\n"; sep = true; }       // blank line
        else if (k == 1) { text += "#x\n"; }                                                         // comment line: as if it were not there
        else if (k == 2) { if (cur) return; text += "uu: d1\n"; cur = 1; any = false; sep = false; }
        else { QByteArray b = rt_bytes("c", "x :;=", 2); QByteArray cmd = refTrim(b); if (cmd.isEmpty()) return; text += (k == 3 ? "\t" : "  ") + b + "\n"; c[cur].append(cmd); any = true; }
    }
    (void)sep; Mk mk; sym_assert(mk.read(text), "accepted"); QList<QByteArray> d0, d1; d0.append("d0"); d1.append("d1");
    expectTarget(mk, "tt", d0, c[0]); if (cur) expectTarget(mk, "uu", d1, c[1]); if (c[0].size() > 1) sym_reach("two"); sym_reach("ok");
}
// commands after ;
extern "C" void E_inplace()
{
    QByteArray b = rt_bytes("c", "x:;\" ", 1 + rt_choose("n", TIER == 2 ? 6 : 4)), cmd = refTrim(b); if (cmd.isEmpty()) return;
    bool more = rt_bool("more"), dq = rt_bool("dq"); Mk mk; sym_assert(mk.read(QByteArray("tt uu: d0") + (dq ? " \"d;1\"" : "") + ";" + b + "\n" + (more ? "\tc2\n" : "")), "accepted");
    QList<QByteArray> d, c; d.append("d0"); if (dq) d.append("d;1"); c.append(cmd); if (more) c.append("c2"); expectTarget(mk, "tt", d, c); expectTarget(mk, "uu", d, c); sym_reach("ok");
}
// macro modifiers are no separators
extern "C" void E_mod()
{
    static const char *const f[] = { "$(M:a=b)", "$(M)", "\"$(M:a=b)\"", "$(M:aa=bb)" }, *const v[] = { "bb", "aa", "bb", "bb" };
    int a = rt_choose("a", 4), b = rt_choose("b", 4); if (b == 2) return; bool dbl = rt_bool("dbl"), sp = rt_bool("sp"); Mk mk; mk.mt->setMacroValue(R_("M"), R_("aa"));
    sym_assert(mk.read(QByteArray(f[a]) + (sp ? " " : "") + (dbl ? "::" : ":") + " dd x" + f[b] + "x $(M:a=c:\\)\n\tcmd\n"), "accepted");
    QList<QByteArray> d, c; d << "dd" << (b == 2 ? QByteArray() : QByteArray("x") + v[b] + "x") << "c:\\c:\\"; c.append("cmd"); expectTarget(mk, v[a], d, c); sym_assert(mk.m->targets().count() == 1, "one target"); sym_reach("ok");
}
