// @entry: E_choose time=200 ttime=1500 reach=applied,none,redefined,implicit
// @entry: E_suffixes time=100 ttime=600 reach=applied,none,default
// @entry: E_path time=150 ttime=900 reach=applied,none,two
// @entry: E_name time=100 ttime=600 reach=applied
// @entry: E_depend time=100 ttime=600 reach=rebuilt,current,chain
// @entry: E_sources time=100 ttime=600 reach=rebuilt,current
// @entry: E_batch time=250 ttime=1500 reach=one,several,failed
// @entry: E_batchOld time=150 ttime=900 reach=rebuilt,current
// @bound: every sequence of 3 (thorough 4) rules out of 3 source extensions with every suffix list of up to 3 entries over them and every presence of sources, for explicit and implicit targets; suffix list changes out of 4 statements (including the built-in list); source and target directories out of 3 spellings each and two rules for the same extensions; base names of up to 3 (5) characters over { a . - blank }; every order of ages; up to 4 targets of a batch rule with 1 to 3 jobs, every order in which commands end, every subset of batches failing
// @outside: which of two rules with the same extensions but different source directories is used when both sources exist; modifiers of $<; paths written with different separators or case; rules that differ in the case of extensions; sources that are only made by another rule; targets without applicable rule that do not exist
#include "hsched.h"
static QList<QByteArray> cmds; static QList<QByteArray> running; static void (*atStart)(const QByteArray &) = nullptr; static void (*atEnd)(const QByteArray &, bool) = nullptr;
static void s_started(const QString &cmd, int) { QByteArray c = cmd.toLatin1(); cmds.append(c); rt_observe("start", c); if (atStart) atStart(c); }
static void s_ended(const QString &cmd, bool ok) { if (atEnd) atEnd(cmd.toLatin1(), ok); }
static const char *const X[] = { ".xa", ".xb", ".xc" };
extern "C" void E_choose()
{
    int nr = rt_choose("rules", TIER == 2 ? 5 : 4), ns = rt_choose("suffixes", 4); QByteArray t = ".SUFFIXES:\n", rules; int suf[3]; int def[3] = { -1, -1, -1 }; bool src[3], implicit = rt_bool("implicit"), late = rt_bool("late"), dep = late;
    if (ns) { t += ".SUFFIXES:"; for (int i = 0; i < ns; ++i) { suf[i] = rt_choose("suffix", 3); for (int j = 0; j < i; ++j) if (suf[j] == suf[i]) return; t += QByteArray(" ") + X[suf[i]]; } t += "\n"; }
    for (int i = 0; i < nr; ++i) { int k = rt_choose("ext", 3); if (def[k] >= 0) sym_reach("redefined"); def[k] = i; rules += QByteArray(X[k]) + ".yy:\n\tr" + (char)('0' + i) + " $< $@\n"; }
    for (int i = 0; i < 3; ++i) { src[i] = rt_bool("source"); rt_file(QByteArray("tt") + X[i], "x", src[i], src[i] ? 3 : 0); }
    if (!implicit && dep) rt_file("hh", "x", true, 2);
    QByteArray body = implicit ? "all: tt.yy\n" : dep ? "tt.yy: hh\n" : "tt.yy:\n"; t += late ? body + rules : rules + body;
    int best = -1; for (int i = 0; i < ns && best < 0; ++i) if (def[suf[i]] >= 0 && src[suf[i]]) best = suf[i];
    if (implicit) { if (best < 0) return; sym_reach("implicit"); }
    Mk mk; sym_assert(mk.read(t), "the makefile is read"); sym_assert(s_build(mk, 1) == 0, "the build succeeds");
    if (best < 0) { sym_assert(cmds.isEmpty(), "no rule is applied whose source does not exist or whose suffix is not listed"); sym_reach("none"); return; }
    sym_assert(cmds.size() == 1, "exactly one rule is applied"); QByteArray want = QByteArray("r") + (char)('0' + def[best]) + " tt" + X[best] + " tt.yy";
    sym_assert(rt_eqb(cmds.at(0), want), "the last definition of the rule with the first listed suffix whose source exists is applied"); sym_reach("applied");
    DescriptionBlock *b = mk.t("tt.yy"); sym_assert(b != nullptr && b->m_dependents.contains(QString::fromLatin1(QByteArray("tt") + X[best])), "the source becomes a dependent");
}
extern "C" void E_suffixes()
{   // later .SUFFIXES add to the end; an empty one clears; the built-in list has .c before .cpp
    static const char *const S[] = { "", ".SUFFIXES:\n", ".SUFFIXES: .xa\n", ".SUFFIXES: .xb .c\n" }; QList<QByteArray> list; list << ".c" << ".cpp"; QByteArray t; bool touched = false;
    for (int i = 0; i < 3; ++i) { int k = rt_choose("s", 4); t += S[k]; if (k) touched = true; if (k == 1) list.clear(); if (k == 2) list << ".xa"; if (k == 3) list << ".xb" << ".c"; }
    if (!touched) sym_reach("default");
    static const char *const E[] = { ".c", ".cpp", ".xa", ".xb" }; bool src[4]; int rot = rt_choose("order", 4); for (int i = 0; i < 4; ++i) { src[i] = rt_bool("source"); rt_file(QByteArray("tt") + E[i], "x", src[i], src[i] ? 3 : 0); int j = (i + rot) & 3; t += QByteArray(E[j]) + ".yy:\n\tr" + (char)('0' + j) + " $<\n"; }
    QByteArray want; for (int i = 0; i < list.size() && want.isEmpty(); ++i) for (int j = 0; j < 4; ++j) if (list.at(i) == E[j] && src[j]) want = QByteArray("r") + (char)('0' + j) + " tt" + E[j];
    Mk mk; sym_assert(mk.read(t + "tt.yy:\n"), "the makefile is read"); sym_assert(s_build(mk, 1) == 0, "the build succeeds");
    if (want.isEmpty()) { sym_assert(cmds.isEmpty(), "rules with an unlisted suffix are not used"); sym_reach("none"); return; }
    sym_assert(cmds.size() == 1 && rt_eqb(cmds.at(0), want), "the first listed suffix wins"); sym_reach("applied");
}
extern "C" void E_path()
{
    static const char *const F[] = { "", "{src}", "{src/}" }, *const T[] = { "", "{out}", "{out/}" }, *const D[] = { "", "out/", "oth/" };
    rt_dir("src"); rt_dir("out"); rt_dir("oth"); int nr = 1 + rt_choose("rules", 2), d = rt_choose("dir", 3); QByteArray t = ".SUFFIXES: .xa\n"; bool sHere = rt_bool("here"), sSrc = rt_bool("src"), sOut = rt_bool("other"); if (nr == 2) sym_reach("two");
    rt_file("tt.xa", "x", sHere, sHere ? 3 : 0); rt_file("src/tt.xa", "x", sSrc, sSrc ? 3 : 0); rt_file("out/tt.xa", "x", sOut, sOut ? 3 : 0); QList<QByteArray> ok; int fs[2], ts[2];
    for (int i = 0; i < nr; ++i) {
        int f = fs[i] = rt_choose("from", 3), to = ts[i] = rt_choose("to", 3); t += QByteArray(F[f]) + ".xa" + T[to] + ".yy:\n\tr" + (char)('0' + i) + " $<\n";
        if (i == 1 && (fs[0] > 0) == (f > 0) && (ts[0] > 0) == (to > 0)) ok.clear();    // the same rule again
        if ((to ? 1 : 0) == d && (f ? sSrc : sHere)) ok.append(QByteArray("r") + (char)('0' + i) + " " + (f ? "src/tt.xa" : "tt.xa"));
    }
    QByteArray n = QByteArray(D[d]) + "tt.yy", own; if (nr == 1 && rt_bool("target")) own = "src/tt.xa:\ntt.xa:\n";   // the sources are targets themselves
    Mk mk; sym_assert(mk.read(t + n + ":\n" + own), "the makefile is read"); sym_assert(s_build(mk, 1) == 0, "the build succeeds");
    if (ok.isEmpty()) { sym_assert(cmds.isEmpty(), "a rule for another directory or without source is not used"); sym_reach("none"); return; }
    sym_assert(cmds.size() == 1, "exactly one rule is applied"); bool found = false; for (const QByteArray &o : ok) if (cmds.at(0) == o) found = true; sym_assert(found, "a rule whose directories match is applied"); sym_reach("applied");
}
extern "C" void E_name()
{
    int n = rt_choose("n", TIER == 2 ? 6 : 4), form = rt_choose("form", 3); QByteArray b = "x" + rt_bytes("c", "a.- ", n) + "y"; QByteArray T = form == 1 ? ".YY" : ".yy"; bool dir = rt_bool("dir"), sufUp = rt_bool("up"); QByteArray d = dir ? "out/" : ""; if (dir) rt_dir("out");
    rt_file(b + ".xa", "x", true, 3); QByteArray t = QByteArray(".SUFFIXES: ") + (sufUp ? ".XA" : ".xa") + "\n.xa" + (dir ? "{out}" : "") + ".yy:\n\tr $<;$(V)\nV=v\n"; t += form == 2 ? "all: \"" + d + b + T + "\"\n" : "\"" + d + b + T + "\":\n";
    Mk mk; sym_assert(mk.read(t), "the makefile is read"); sym_assert(s_build(mk, 1) == 0, "the build succeeds"); sym_assert(cmds.size() == 1, "the rule is applied"); sym_assert(rt_eqb(cmds.at(0), "r " + b + ".xa;v"), "$< stands for the source with the name of the target"); sym_reach("applied");
}
static void chainEnd(const QByteArray &c, bool) { if (c == "gen") rt_touch("tt.xa", true, 0x01d0000000000001ull); if (c.startsWith("r ")) rt_touch("tt.yy", true, 0x01d0000000000002ull); }
extern "C" void E_depend()
{
    bool chain = rt_bool("chain"), exists = rt_bool("exists"), h = rt_bool("header"), all = rt_bool("all"); atEnd = chainEnd; QByteArray t = ".SUFFIXES: .xa\n.xa.yy:\n\tr $<\n";
    uint64_t a = sym_new("age", 64), s = sym_new("age", 64), g = sym_new("age", 64); sym_assume((a != 0) & (s != 0) & (g != 0) & (a < 0x01d0000000000000ull) & (s < 0x01d0000000000000ull) & (g < 0x01d0000000000000ull));
    rt_file("tt.yy", "x", exists, exists ? a : 0); if (h) rt_file("hh", "x", true, g); bool old = !exists || (h && g > a);
    if (chain) { rt_file("tt.xa", "x", false, 0); t += "tt.yy: tt.xa\ntt.xa:\n\tgen\n"; if (h) t += "tt.yy: hh\n"; old = true; sym_reach("chain"); } else { rt_file("tt.xa", "x", true, s); t += h ? "tt.yy: hh\n" : "tt.yy:\n"; old = old || s > a; }
    Mk mk; sym_assert(mk.read(t, chain ? QStringList(QString(R_("tt.yy"))) : QStringList()), "the makefile is read"); mk.o->buildAllTargets = all; if (all) old = true; sym_assert(s_build(mk, 1, chain ? QStringList(QString(R_("tt.yy"))) : QStringList()) == 0, "the build succeeds");
    if (!old) { sym_assert(cmds.isEmpty(), "a target newer than its source is not rebuilt"); sym_reach("current"); return; }
    sym_assert(cmds.size() == (chain ? 2 : 1) && cmds.last() == "r tt.xa", "a target that is missing or older than its source is rebuilt by the rule"); sym_reach("rebuilt");
}
// the dependents of a target made by a rule are those it was given and the source of that rule, however the decision to rebuild was made
extern "C" void E_sources()
{
    static const char *const S[] = { "tt.xa", "tt.xb" }; bool h = rt_bool("header"), src[2] = { true, rt_bool("second") }, exists = rt_bool("exists"), exp = rt_bool("explicit"); uint64_t a = sym_new("age", 64), g = sym_new("age", 64), s[2] = { sym_new("age", 64), sym_new("age", 64) }; sym_assume((a != 0) & (g != 0) & (s[0] != 0) & (s[1] != 0) & (a < 0x01d0000000000000ull) & (g < 0x01d0000000000000ull) & (s[0] < 0x01d0000000000000ull) & (s[1] < 0x01d0000000000000ull));
    bool first = rt_bool("first"); if (!first) src[0] = false, src[1] = true; rt_file("tt.yy", "x", exists, exists ? a : 0); if (h) rt_file("hh", "x", true, g); for (int i = 0; i < 2; ++i) rt_file(S[i], "x", src[i], src[i] ? s[i] : 0); int use = src[0] ? 0 : 1;
    QByteArray t = ".SUFFIXES:\n.SUFFIXES: .xa .xb\n.xa.yy:\n\tra $< $**\n.xb.yy:\n\trb $< $**\n" + QByteArray("tt.yy:") + (h ? " hh" : "") + (exp ? QByteArray(" ") + S[use] : QByteArray()) + "\n"; QByteArray want = QByteArray("r") + (char)('a' + use) + " " + S[use] + (h ? " hh " : " ") + S[use];
    Mk mk; sym_assert(mk.read(t), "the makefile is read"); sym_assert(s_build(mk, 1) == 0, "the build succeeds"); bool must = !exists || (h && g > a) || s[use] > a, may = must || (src[1 - use] && s[1 - use] > a);
    if (must) sym_assert(cmds.size() == 1, "a target that is missing or older than its source is rebuilt by the rule"); else if (!may) sym_assert(cmds.isEmpty(), "a target newer than its source is not rebuilt"); if (cmds.isEmpty()) { sym_reach("current"); return; } sym_reach("rebuilt");
    sym_assert(rt_eqb(cmds.at(0), want), "$** stands for the given dependents and the source of the rule");
}
// ---- batch rules
static int N; static bool srcDone[4], srcFailed[4], srcSeen[4], parSeen[4]; static bool old4[4];
static bool hasSrc(const QByteArray &c, int i) { QByteArray n = QByteArray(" t") + (char)('0' + i) + ".xa "; return (c + " ").contains(n); }
static void bStart(const QByteArray &c)
{
    if (c.startsWith("b")) { for (int i = 0; i < N; ++i) if (hasSrc(c, i)) { sym_assert(!srcSeen[i], "each source is passed only once"); srcSeen[i] = true; } return; }
    int i = c.at(1) - '0'; sym_assert(!parSeen[i], "a parent is built once"); parSeen[i] = true;
    sym_assert(!old4[i] || srcDone[i], "a target is not built before the batch that makes its dependent has ended"); sym_assert(!srcFailed[i], "a target is not built when the batch that makes its dependent failed");
}
static void bEnd(const QByteArray &c, bool ok) { if (!c.startsWith("b")) { if (ok) rt_touch(c.left(2), true, 12); return; } for (int i = 0; i < N; ++i) if (hasSrc(c, i)) { if (ok) { srcDone[i] = true; rt_touch(QByteArray("t") + (char)('0' + i) + ".yy", true, 11); } else srcFailed[i] = true; } }
static QByteArray batchText(bool twoOf) { QByteArray t = ".SUFFIXES: .xa\n.xa.yy::\n\tb $< .\nall:", p; for (int i = 0; i < N; ++i) { QByteArray k(1, (char)('0' + i)); t += " p" + k; p += "p" + k + ": t" + k + ".yy" + (twoOf && i ? " t0.yy" : "") + "\n\tp" + k + "\n"; } return t + "\n" + p; }
extern "C" void E_batch()
{
    N = 1 + rt_choose("n", 4); int jobs = 1 + rt_choose("jobs", 3); bool keep = rt_bool("keep"), all = rt_bool("all"), two = N > 1 && rt_bool("two"); s_fail = N < 4 && rt_bool("mayfail"); for (int i = 0; i < N; ++i) { rt_file(QByteArray("t") + (char)('0' + i) + ".xa", "x", true, 5); old4[i] = true; }
    if (N == 4 && (keep || all || two)) return;
    atStart = bStart; atEnd = bEnd; Mk mk; sym_assert(mk.read(batchText(two)), "the makefile is read"); mk.o->buildUnrelatedTargetsOnError = keep; mk.o->buildAllTargets = all; int code = s_build(mk, jobs); sym_assert((code != 0) == s_anyFailed, "the exit code tells whether a command failed");
    for (int i = 0; i < N; ++i) { if (!s_anyFailed) sym_assert(srcSeen[i] && parSeen[i], "every source is passed and every target built"); else if (keep) sym_assert(srcSeen[i] && (parSeen[i] || srcFailed[i] || (two && srcFailed[0])), "what does not depend on the failure is built"); }
    int nb = 0; for (const QByteArray &c : cmds) if (c.startsWith("b")) ++nb; sym_reach(s_anyFailed ? "failed" : nb < N ? "several" : "one");
}
// existing targets: exactly the outdated ones are made, and what depends on them follows
extern "C" void E_batchOld()
{
    N = 1 + rt_choose("n", 3); atStart = bStart; atEnd = bEnd; bool any = false;
    for (int i = 0; i < N; ++i) { QByteArray k(1, (char)('0' + i)); old4[i] = rt_bool("old"); any |= old4[i]; rt_file("t" + k + ".xa", "x", true, old4[i] ? 5 : 2); rt_file("t" + k + ".yy", "x", true, 3); rt_file("p" + k, "x", true, 4); }
    Mk mk; sym_assert(mk.read(batchText(false)), "the makefile is read"); sym_assert(s_build(mk, 1 + rt_choose("jobs", 2)) == 0, "the build succeeds");
    for (int i = 0; i < N; ++i) { sym_assert(srcSeen[i] == old4[i], "exactly the outdated targets are made"); sym_assert(parSeen[i] == old4[i], "what depends on a target that was made is rebuilt, and only that"); } sym_reach(any ? "rebuilt" : "current");
}
