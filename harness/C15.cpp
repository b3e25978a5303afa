// @entry: E_content time=150 ttime=900 reach=crlf,utf8,macro,empty,rule
// @entry: E_close time=100 ttime=600 reach=keep,nokeep,end
// @entry: E_place time=150 ttime=900 reach=start,two,quoted,fresh,given
// @entry: E_rule time=150 ttime=900 reach=name,batch,two
// @entry: E_names time=150 ttime=900 reach=same,parallel
// @entry: E_again time=100 ttime=600 reach=again
// @entry: E_single time=100 ttime=600 reach=runs
// @bound: inline texts of up to 2 lines with up to 4 (thorough 5) characters over { a \ ^ # < = blank TAB } each, optionally followed by a macro invocation, LF or CR LF line ends, 8-bit or UTF-8 makefile, ordinary targets and inference rules; every closing line out of 12; up to two commands with up to 2 inline files each at any place, given, quoted or fresh names, with and without KEEP; up to 3 targets with the same file name in different directories built in parallel with a clock that may stand still; two targets one after another with the same or other names, with up to two further targets beside them, by up to 3 jobs
// @outside: lines that start with ! (directives also act inside inline text), the UNICODE option, text without closing line, inline files that cannot be written (C10), << that comes out of a macro in an inference rule, characters outside ASCII
#include "hsched.h"
static QByteArray q2b(const QString &s) { return s.toLatin1(); }
static QByteArray crlf(const QByteArray &l) { return l + "\r\n"; }
static QByteArray relOf(QByteArray n) { if (n.startsWith('"')) n = n.mid(1, n.size() - 2); QByteArray w = rt_cwd().toLatin1() + "/"; return n.startsWith(w) ? n.mid(w.size()) : n; }
// ---- expectations about running commands
struct Want { QByteArray head, tail; QList<QByteArray> names /* empty: fresh */, texts; QList<bool> keep; };
static QList<Want> wants; static int nstarted; static QList<QByteArray> used; static QList<bool> usedKeep; static QList<QByteArray> live;
static bool slowClock, blankList; /* the list $< of a batch ends with a blank */ static DWORD ticks;
extern "C" DWORD WINAPI GetTickCount(void) { static int still; if (!slowClock || still > 1 || rt_bool("tick")) { ++ticks; still = 0; } else ++still; return 5000 + ticks; }
// splits a command into its words (quotes kept)
static QList<QByteArray> words(const QByteArray &c) { QList<QByteArray> r; QByteArray w; bool q = false; for (int i = 0; i < c.size(); ++i) { char x = c.at(i); if (x == '"') q = !q; if (x == ' ' && !q) { if (!w.isEmpty()) r.append(w); w.clear(); } else w += x; } if (!w.isEmpty()) r.append(w); return r; }
static void s_started(const QString &cmd, int running)
{
    // commands are  <key> <file>... .   with key naming the expectation
    QList<QByteArray> w = words(q2b(cmd)); ++nstarted; if (running > 1) sym_reach("parallel");
    int k = -1; for (int i = 0; i < wants.size(); ++i) if (w.contains(wants.at(i).head)) k = i;
    sym_assert(k >= 0, "the command is one of the makefile's"); const Want &x = wants.at(k); int p = 0;
    sym_assert(w.size() == x.names.size() + 1 + (x.tail.isEmpty() ? 0 : 1), "each << is replaced by one file name");
    for (int i = 0; i < w.size(); ++i) {
        if (w.at(i) == x.head || (!x.tail.isEmpty() && w.at(i) == x.tail)) continue;
        QByteArray f = w.at(i), rel; if (f.startsWith('@')) f = f.mid(1); rel = relOf(f); bool sp = rel.contains(' ');
        sym_assert(f.startsWith('"') == sp, "file names with blanks are quoted");
        if (sp) sym_reach("quoted");
        if (!x.names.at(p).isEmpty()) { sym_assert(rt_eqb(rel, x.names.at(p)), "the inline file has the given name"); sym_reach("given"); }
        else { sym_assert(!live.contains(rel), "a fresh name is not that of another file"); sym_reach("fresh"); }
        sym_assert(rt_exists(rel), "the inline file exists while the command runs"); QByteArray got = rt_content(rel); if (blankList) got.replace(" for", "for"), got.replace(" for", "for"), got.replace("for", " for"); sym_assert(rt_eqb(got, x.texts.at(p)), "the inline file holds its text");
        used.append(rel); live.append(rel); usedKeep.append(x.keep.at(p)); ++p;
    }
}
static bool checkLive;
static void s_ended(const QString &c, bool)
{
    QList<QByteArray> w = words(q2b(c));
    for (int i = 0; i < wants.size(); ++i) {
        if (!w.contains(wants.at(i).head)) continue; int p = 0;
        for (int k = 0; k < w.size(); ++k) {
            if (w.at(k) == wants.at(i).head || (!wants.at(i).tail.isEmpty() && w.at(k) == wants.at(i).tail)) continue;
            QByteArray f = w.at(k); if (f.startsWith('@')) f = f.mid(1); f = relOf(f);
            if (checkLive) sym_assert(rt_exists(f) && rt_eqb(rt_content(f), wants.at(i).texts.at(p)), "the inline file holds its text until the command ends");
            if (!wants.at(i).keep.at(p)) live.removeOne(f); ++p;
        }
    }
}
static int build(Mk &mk, int jobs = 1) { rt_dir("tmp"); int c = s_build(mk, jobs); delete s_te; s_te = nullptr; for (int i = 0; i < used.size(); ++i) { bool keep = usedKeep.at(i); for (int j = 0; j < used.size(); ++j) if (used.at(j) == used.at(i)) keep = usedKeep.at(j); sym_assert(rt_exists(used.at(i)) == keep, "inline files are removed after use unless they are kept"); } return c; }
// ---- content
extern "C" void E_content()
{
    bool cr = rt_bool("crlf"), u = rt_bool("utf8"), rule = rt_bool("rule"); int nl = rt_choose("lines", 3); if (cr) sym_reach("crlf"); if (u) sym_reach("utf8"); if (rule) sym_reach("rule");
    QByteArray t = u ? QByteArray("\xef\xbb\xbf") : QByteArray(), want; t += "V = v1\n"; t += rule ? ".SUFFIXES: .xx\ntt.yy:\n.xx.yy:\n" : "tt.yy:\n"; t += "\tcmd <<nn .\n";
    if (!nl) sym_reach("empty");
    for (int i = 0; i < nl; ++i) {
        int n = i ? (int)rt_choose("n", 2) : (int)rt_choose("n", TIER == 2 ? 6 : 5); QByteArray l = rt_bytes("c", "a\\^#< =\t", n); if (n > 1) sym_assume((l.at(0) != '<') | (l.at(1) != '<'));
        int m = rt_choose("m", 3); t += l; QByteArray w = l; if (m) { t += m == 1 ? "b$(V)" : "b$$x"; w += m == 1 ? "bv1" : "b$x"; sym_reach("macro"); }
        t += "\n"; want += crlf(w);
    }
    t += "<<\n\tnext .\nzz:\n\tlast\n"; if (cr) { QByteArray r; for (int i = 0; i < t.size(); ++i) { if (t.at(i) == '\n') r += '\r'; r += t.at(i); } t = r; }
    rt_file("tt.xx", "x", true, 3);
    Mk mk; sym_assert(mk.read(t), "the makefile is read"); DescriptionBlock *b = mk.t("tt.yy"); sym_assert(b != nullptr, "the target is known");
    sym_assert(mk.t("zz") != nullptr && mk.t("zz")->m_commands.size() == 1, "the lines after the inline text stay part of the makefile");
    QList<Command> c = b->m_commands;
    if (rule) { wants.clear(); Want w; w.head = "cmd"; w.tail = "."; w.names << "nn"; w.texts << want; w.keep << false; wants << w; Want w2; w2.head = "next"; w2.tail = "."; wants << w2; sym_assert(build(mk) == 0, "the build succeeds"); sym_assert(nstarted == 2, "both commands run"); return; }
    sym_assert(c.size() == 2, "the lines after the inline text stay part of the makefile"); sym_assert(c.at(0).m_inlineFiles.size() == 1, "one inline file");
    InlineFile *f = c.at(0).m_inlineFiles.at(0); rt_observe("text", f->m_content); sym_assert(sameText(f->m_content, want), "the inline file holds exactly the lines with macros expanded and CRLF line ends"); sym_assert(sameText(f->m_filename, "nn"), "the name is the given one");
    sym_assert(sameText(c.at(1).m_commandLine, "next ."), "the lines after the inline text stay part of the makefile");
}
extern "C" void E_close()
{
    static const char *const C[] = { "<<", "<<KEEP", "<< KEEP", "<<NOKEEP", "<< NOKEEP", "<<\tKEEP", "<<  KEEP ", "<< KEEPX", "<<KEEP UNICODE", "<<UNICODE", "<< UNICODE KEEP", "<<xKEEP" };
    static const bool K[] = { 0, 1, 1, 0, 0, 1, 1, 0, 1, 0, 1, 0 };
    int k = rt_choose("close", 12), k2 = rt_choose("close2", 12); bool cr = rt_bool("crlf"), eof = rt_bool("eof");
    QByteArray t = QByteArray("tt:\n\tcmd <<aa <<bb .\none\n") + C[k] + "\ntwo\n" + C[k2]; if (!eof) t += "\n"; else sym_reach("end");
    if (cr) { QByteArray r; for (int i = 0; i < t.size(); ++i) { if (t.at(i) == '\n') r += '\r'; r += t.at(i); } t = r; }
    Want w; w.head = "cmd"; w.tail = "."; w.names << "aa" << "bb"; w.texts << "one\r\n" << "two\r\n"; w.keep << K[k] << K[k2]; wants << w; sym_reach(K[k] ? "keep" : "nokeep");
    Mk mk; sym_assert(mk.read(t), "the makefile is read"); sym_assert(build(mk) == 0, "the build succeeds"); sym_assert(nstarted == 1, "the command runs once");
}
extern "C" void E_place()
{
    static const char *const N[] = { "", "aa", "bb.txt", "\"c c\"", "sub/d", "$@.e", "$(V).f" }; static const char *const W[] = { "", "aa", "bb.txt", "c c", "sub/d", "tt.e", "v1.f" };
    rt_dir("sub"); int nc = 1 + rt_choose("commands", 2); QByteArray t = "V=v1\ntt:\n"; if (nc == 2) sym_reach("two");
    for (int i = 0; i < nc; ++i) {
        Want w; w.head = i ? "k1" : "k0"; w.tail = "."; int nf = rt_choose("files", 3); bool start = rt_bool("start"); QByteArray line, text; int a = -1;
        for (int j = 0; j < nf; ++j) {
            int n = i || j ? (int)rt_choose("name", 4) : (int)rt_choose("name", 7); if (n && n == a) return; a = n; bool keep = !j && rt_bool("keep"), at = start && j == 1;
            line += QByteArray(" ") + (at ? "@" : "") + "<<" + N[n]; QByteArray body = "l" + QByteArray::number(i) + QByteArray::number(j); text += body + "\n<<" + (keep ? "KEEP" : "") + "\n"; w.names << W[n]; w.texts << body + "\r\n"; w.keep << keep;
        }
        if (start && nf) { line = line.mid(1) + " " + w.head; sym_reach("start"); } else line = w.head + line;
        t += "\t" + line + " .\n" + text; wants << w;
    }
    Mk mk; sym_assert(mk.read(t), "the makefile is read"); for (int i = 0; i < nc; ++i) for (int j = 0; j < nc; ++j) if (i < j) for (const QByteArray &x : wants.at(i).names) for (const QByteArray &y : wants.at(j).names) if (!x.isEmpty() && x == y) return;
    sym_assert(build(mk) == 0, "the build succeeds"); sym_assert(nstarted == nc, "each command runs once");
}
// inference rules: one file per target
extern "C" void E_rule()
{
    static const char *const N[] = { "$*.l", "$@.l", "$(@B).l", "$(V)$*.l", "", "\"$* l\"" };
    bool batch = rt_bool("batch"); int n = 1 + rt_choose("targets", 2), k = rt_choose("name", 6); sym_reach(k == 4 ? "two" : "name"); if (batch) sym_reach("batch");
    QByteArray t = "V=v1\n.SUFFIXES: .xx\nall:"; for (int i = 0; i < n; ++i) t += QByteArray(" t") + (char)('0' + i) + ".yy"; t += QByteArray("\n.xx.yy") + (batch ? "::" : ":") + "\n\tcmd$* @<<" + N[k] + "\nin $< for $@ $(V)\n<<\n";
    for (int i = 0; i < n; ++i) { QByteArray b = QByteArray("t") + (char)('0' + i); rt_file(b + ".xx", "x", true, 3); Want w; w.head = "cmd" + b; QByteArray nm = k == 0 || k == 2 ? b + ".l" : k == 1 ? b + ".yy.l" : k == 3 ? "v1" + b + ".l" : k == 4 ? "" : b + " l"; w.names << nm; w.texts << "in " + b + ".xx"+ " for " + b + ".yy v1\r\n"; w.keep << false; wants << w; }
    Mk mk; sym_assert(mk.read(t), "the makefile is read"); mk.o->batchModeEnabled = blankList = batch; sym_assert(build(mk, batch ? 4 : 1 + rt_choose("jobs", 2)) == 0, "the build succeeds"); sym_assert(nstarted == n, "each command runs once");
}
extern "C" void E_names()
{
    slowClock = true; int n = 2 + rt_choose("n", TIER == 2 ? 2 : 1); QByteArray t = "all:"; for (int i = 0; i < n; ++i) t += QByteArray(" ") + (char)('p' + i) + "/x"; t += "\n";
    for (int i = 0; i < n; ++i) { QByteArray d(1, (char)('p' + i)); rt_dir(d); t += d + "/x:\n\tc" + d + " <<\nof " + d + "\n<<\n"; Want w; w.head = "c" + d; w.names << ""; w.texts << "of " + d + "\r\n"; w.keep << false; wants << w; }
    sym_reach("same"); Mk mk; sym_assert(mk.read(t), "the makefile is read"); sym_assert(build(mk, n) == 0, "the build succeeds"); sym_assert(nstarted == n, "each command runs once");
}
// targets that are built one after another may use the same name; others run at the same time
extern "C" void E_again()
{
    int n = 2, other = rt_choose("others", 3), jobs = rt_choose("jobs", 3) + 1; static const char *const N[] = { "", "nn", "$@.x" }; QByteArray t = "all:"; for (int i = 0; i < n; ++i) t += " t" + QByteArray::number(i); for (int i = 0; i < other; ++i) t += " o" + QByteArray::number(i); t += "\n";
    for (int i = 0; i < n; ++i) { QByteArray d = "t" + QByteArray::number(i), nm; int k = rt_choose("name", 3); bool keep = rt_bool("keep"); nm = k == 2 ? d + ".x" : QByteArray(N[k]); t += d + ":"; if (i) t += " t" + QByteArray::number(i - 1); t += "\n\tc" + d + " <<" + N[k] + "\nof " + d + "\n" + (keep ? "<<KEEP\n" : "<<\n"); Want w; w.head = "c" + d; w.names << nm; w.texts << "of " + d + "\r\n"; w.keep << keep; wants << w; if (i && k == 1) sym_reach("again"); }
    for (int i = 0; i < other; ++i) { QByteArray d = "o" + QByteArray::number(i); t += d + (i ? ": t0\n\tc" : ":\n\tc") + d + "\n"; Want w; w.head = "c" + d; wants << w; }
    checkLive = true; Mk mk; sym_assert(mk.read(t), "the makefile is read"); sym_assert(build(mk, jobs) == 0, "the build succeeds"); sym_assert(nstarted == n + other, "each command runs once");
}
extern "C" void E_single()
{
    int n = 1 + rt_choose("deps", 3); bool after = rt_bool("after"), before = rt_bool("before"), same = rt_bool("two"); QByteArray t = "tt:"; for (int i = 0; i < n; ++i) { QByteArray d = "d" + QByteArray::number(i); rt_file(d, "x", true, 3); t += " " + d; }
    t += "\n"; if (before) { t += "\tkb <<b\nB\n<<\n"; Want w; w.head = "kb"; w.names << "b"; w.texts << "B\r\n"; w.keep << false; wants << w; }
    t += "\t!k$** @<<$**.l\nin $**\n<<\n"; for (int i = 0; i < n; ++i) { QByteArray d = "d" + QByteArray::number(i); Want w; w.head = "k" + d; w.names << d + ".l"; w.texts << "in " + d + "\r\n"; w.keep << false; wants << w; }
    if (same) { t += "\t!m$** @<<$**.m\nin $**\n<<KEEP\n"; for (int i = 0; i < n; ++i) { QByteArray d = "d" + QByteArray::number(i); Want w; w.head = "m" + d; w.names << d + ".m"; w.texts << "in " + d + "\r\n"; w.keep << true; wants << w; } }
    if (after) { t += "\tka <<a\nA\n<<\n"; Want w; w.head = "ka"; w.names << "a"; w.texts << "A\r\n"; w.keep << false; wants << w; }
    Mk mk; sym_assert(mk.read(t), "the makefile is read"); sym_reach("runs"); sym_assert(build(mk) == 0, "the build succeeds"); sym_assert(nstarted == wants.size(), "each command runs once");
}
