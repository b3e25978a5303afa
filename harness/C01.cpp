// @entry: E_plain time=150 ttime=900 reach=two,cont,caret,escaped,doubled,comment,nonl
// @entry: E_utf8 time=150 ttime=900 reach=two,cont,caret
// @entry: E_crlf time=100 ttime=600 reach=two,cont
// @entry: E_boundary time=150 ttime=600 reach=cont,none
// @entry: E_boundary2 time=150 ttime=600 reach=cont,none
// @entry: E_utf8long time=100 ttime=600 reach=cont,none
// @entry: E_join time=150 ttime=900 reach=joined,three
// @entry: E_inlineMode time=60 ttime=300 reach=two
// @bound: line reader: every file of up to 7 (thorough 9) characters over { \ ^ # LF a space TAB } for 8-bit and UTF-8 files, up to 5 (7) characters plus CR LF line ends
// @bound: read-buffer boundary: every placement of 4 symbolic characters ending a line at each of 9 offsets around the 6144-byte buffer and around its first two growth steps
// @bound: preprocessor joining: every file of up to 6 (8) characters over { \ ^ # LF a space }
// @outside: lines longer than 8300 characters, a lone CR that is not followed by LF, UTF-16 files, characters outside ASCII
#include "ref_lines.h"
#include "makefilelinereader.h"
#include "preprocessor.h"
#include "macrotable.h"
#include "exception.h"
using namespace NMakeFile;
static int contOf(const MakefileLine &l) { return l.continuation == LineContinuationType::None ? 0 : l.continuation == LineContinuationType::Backslash ? 1 : 2; }
static void checkReader(const QByteArray &prefix, const QByteArray &text)
{
    rt_file("mf", prefix + text);
    QList<RefLine> ref = refPhysical(text);
    MakefileLineReader r(QString(R_("mf")));
    sym_assert(r.open(), "the file opens");
    for (int i = 0; i < ref.size(); ++i) {
        MakefileLine l = r.readLine(false);
        sym_assert(!l.content.isNull(), "no line is lost");
        sym_assert(sameText(l.content, ref.at(i).text), "line text");
        sym_assert(contOf(l) == ref.at(i).cont, "line continuation");
        if (ref.at(i).cont == 1) sym_reach("cont"); else if (ref.at(i).cont == 2) sym_reach("caret"); else sym_reach("none");
        if (text.size() < 100) rt_observe("line", l.content);
    }
    for (int k = 0; k < 2; ++k) { MakefileLine l = r.readLine(false); sym_assert(l.content.isNull(), "end of file after the last line, again and again"); }
    if (ref.size() == 2) sym_reach("two");
}
static void marks(const QByteArray &c)
{
    int n = c.size();
    if (n && c.at(n - 1) != '\n') sym_reach("nonl");
    if (n > 2 && c.at(0) == '^' && c.at(1) == '\\' && c.at(2) == '\n') sym_reach("escaped");
    if (n > 2 && c.at(0) == '\\' && c.at(1) == '\\' && c.at(2) == '\n') sym_reach("doubled");
    if (n > 2 && c.at(0) == '#' && c.at(1) == '\n') sym_reach("comment");
}
static const int N = TIER == 2 ? 9 : 7;
extern "C" void E_plain() { int n = rt_choose("n", N + 1); QByteArray c = rt_bytes("c", "\\^#\na \t", n); checkReader(QByteArray(), c); marks(c); }
extern "C" void E_utf8() { int n = rt_choose("n", N); QByteArray c = rt_bytes("c", "\\^#\na \t", n); checkReader(QByteArray("\xef\xbb\xbf"), c); }
extern "C" void E_crlf()
{   // each symbolic character; LF becomes CR LF or stays LF, for both kinds of file
    int n = rt_choose("n", TIER == 2 ? 8 : 6); bool u = rt_bool("u"); QByteArray c;
    for (int i = 0; i < n; ++i) { char x = (char)rt_oneOf("c", "\\^#\na"); if (x == '\n' && rt_bool("cr")) c += '\r'; c += x; }
    checkReader(u ? QByteArray("\xef\xbb\xbf") : QByteArray(), c);
}
// a long line that ends near the end of the read buffer
static void boundary(int base, const QByteArray &prefix, bool cr)
{
    int off = rt_choose("off", 9);
    QByteArray c(base + off, 'x');
    c += rt_bytes("c", cr ? "\\^a" : "\\^a\n", cr ? 3 : 4);
    if (cr) c += '\r';
    c += rt_bool("nl") ? "\nz\\\ny" : "";
    if (cr) sym_assume(c.at(c.size() - 1) != '\r');
    checkReader(prefix, c);
}
extern "C" void E_boundary() { boundary(6134, QByteArray(), rt_bool("cr")); }
extern "C" void E_boundary2() { int k = rt_choose("k", 2); boundary(7158 + 1024 * k, QByteArray(), rt_bool("cr")); }
extern "C" void E_utf8long() { int k = rt_choose("k", 2); boundary(k ? 16374 : 6134, QByteArray("\xef\xbb\xbf"), rt_bool("cr")); }
extern "C" void E_join()
{
    int n = rt_choose("n", TIER == 2 ? 9 : 7); QByteArray c = rt_bytes("c", "\\^#\nq ", n);
    bool u = rt_bool("u");
    rt_file("mf", u ? QByteArray("\xef\xbb\xbf") + c : c);
    QList<QByteArray> ref = refJoined(refPhysical(c));
    MacroTable mt; Preprocessor pp; pp.setMacroTable(&mt);
    try {
        pp.openFile(R_("mf"));
        for (int i = 0; i < ref.size(); ++i) { QString l = pp.readLine(); sym_assert(!l.isNull() && sameText(l, ref.at(i)), "logical line"); rt_observe("line", l); }
        sym_assert(pp.readLine().isNull(), "nothing after the last line");
    } catch (Exception &) { sym_fail("reading plain text reports an error"); }
    if (ref.size() == 3) sym_reach("three");
    if (ref.size() == 1 && ref.at(0).contains(' ') && c.contains('\n')) sym_reach("joined");
}
// text of inline files is delivered line by line as it stands, whatever the encoding of the makefile
extern "C" void E_inlineMode()
{
    int n = rt_choose("n", TIER == 2 ? 7 : 5); bool u = rt_bool("u"); QByteArray c = rt_bytes("c", "\\^#\na", n);
    QByteArray pre = "t: \n";
    rt_file("mf", (u ? QByteArray("\xef\xbb\xbf") : QByteArray()) + pre + c);
    MakefileLineReader r(QString(R_("mf")));
    sym_assert(r.open(), "the file opens");
    sym_assert(sameText(r.readLine(false).content, "t: "), "first line");
    int st = 0, k = 0;
    while (st < n) {
        int e = st; while (e < n && c.at(e) != '\n') ++e;
        QString l = r.readLine(true).content; ++k;
        QByteArray want = c.mid(st, e - st);
        sym_assert(sameText(l, want) || sameText(l, want + '\n'), "raw line");
        st = e + 1;
    }
    sym_assert(r.readLine(true).content.isEmpty(), "no more raw lines");
    if (k == 2) sym_reach("two");
}
