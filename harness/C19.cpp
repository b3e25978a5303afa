// @entry: E_run time=200 ttime=1500 reach=buffered,direct,both,switched,preempted,internal,ended
// @entry: E_order time=120 ttime=900 reach=order,switched
// @entry: E_two time=120 ttime=900 reach=stale,ended
// @entry: E_large time=60 ttime=300 reach=split,ended
// @entry: E_memory time=60 ttime=300 reach=chunked
// @entry: E_targets time=200 ttime=1500 reach=parallel,live,failed
// @entry: E_more time=150 ttime=900 reach=parallel,live
// @bound: one command with up to 3 (thorough 4) pieces of output of arbitrary bytes on two streams and lines of jom itself; every order of writing, reading by the port thread, switching the buffering on and off, the end of the process and its notification within 8 (10) steps; the port thread also runs where the main thread takes or releases a lock; two commands one after the other; output sizes around the 4096 byte read buffer; a console that refuses large writes; builds of 3 and of 4 targets with up to 3 jobs whose commands write while they run
// @outside: more pieces and steps, preemption of the main thread between locks, chunks with the same time stamp (milliseconds) on different streams
#include "hsched.h"
#include "jomprocess.h"
#include <QtCore/QElapsedTimer>
static QByteArray g_seq; static int g_refuse = -1; static int g_err;
extern "C" size_t h_fwrite(const void *p, size_t s, size_t n, FILE *f)
{
    sym_assert(f == stdout || f == stderr, "output goes to a standard stream");
    if (g_refuse >= 0 && (int)(s * n) > g_refuse) { g_err = ENOMEM; return 0; }
    (f == stdout ? rt_stdout() : rt_stderr()).append((const char *)p, (int)(s * n)); g_seq.append((const char *)p, (int)(s * n)); return n;
}
extern "C" int *h___errno_location(void) { return &g_err; }
static bool g_preempt; static int g_preempts;
void rt_lockHook() { if (!g_preempt || rt_otherThread || w_compl().isEmpty() || g_preempts <= 0) return; if (!rt_bool("preempt")) return; --g_preempts; sym_reach("preempted"); w_deliver(); }
static qint64 g_clock; static bool g_tick = true;
qint64 rt_elapsed() { if (g_tick) ++g_clock; return g_clock; }
static void s_started(const QString &, int) {}
static void s_ended(const QString &, bool) {}
// ---- one process
static QByteArray g_want[2]; static int g_finished; static int g_base;
static int g_lost[2];
static WPipe &pipeOf(int chan) { return w_pipes()[g_base + 1 + chan]; }
static int unread(int chan)
{
    int n = pipeOf(chan).data.size(); for (const WCompl &c : w_compl()) if (c.ok && c.ov == pipeOf(chan).ov && c.key == pipeOf(chan).key) n += c.bytes; return n;
}
static void start(Process &p, const char *cmd) { g_base = w_pipes().size(); p.start(QString(R_("")) + R_(cmd)); sym_assert(p.isRunning(), "the process is started"); }
static void emitData(int chan, const QByteArray &d) { g_want[chan] += d; w_output(w_procs().last(), chan, d); }
static void checkStreams()
{
    rt_observe("out", rt_stdout()); rt_observe("err", rt_stderr());
    for (int c = 0; c < 2; ++c) {
        const QByteArray &got = c ? rt_stderr() : rt_stdout();
        sym_assert(got.size() <= g_want[c].size(), "no output is printed twice");
        sym_assert(rt_eqb(got, g_want[c].left(got.size())), "output is printed on its stream in the order written");
    }
}
// jom is about to handle the end of the process
static void endSeen() { for (int c = 0; c < 2; ++c) g_lost[c] = unread(c); }
static void onFinished()
{
    ++g_finished; checkStreams(); bool lost = false;
    for (int c = 0; c < 2; ++c) {
        int n = g_want[c].size() - (c ? rt_stderr() : rt_stdout()).size();
        sym_assert(n <= g_lost[c], "the output that was read before the end of the process is printed when it ends"); if (n) lost = true;
    }
    if (lost) sym_fail("known:C19-end-before-output-is-read");
}
static void death() { endSeen(); w_death(w_procs().last()); }
static void pump() { endSeen(); rt_pump(); }
static void connectTo(Process &p) { QObject::connect(&p, &Process::finished, &p, [](int, Process::ExitStatus) { onFinished(); }); }
static void run(Process &p, int steps, int writes, bool intern, bool sym)
{
    bool exited = false, posted = false; int fin = g_finished; char mark = 'A';
    for (int k = 0; k < steps && g_finished == fin; ++k) {
        int a[8], n = 0; if (!exited && writes > 0) { a[n++] = 0; a[n++] = 1; } if (!w_compl().isEmpty()) a[n++] = 2; a[n++] = 3; if (intern && writes > 0 && p.isBufferedOutputSet()) a[n++] = 4; if (!exited) a[n++] = 5; else a[n++] = 6; if (posted) a[n++] = 7;
        int x = a[rt_choose("step", n)];
        if (x < 2) { QByteArray d; d += mark++; if (sym) d += (char)rt_byte("c"); emitData(x, d); --writes; }
        else if (x == 2) { bool b = p.isBufferedOutputSet(); w_deliver(); posted = true; sym_reach(b ? "buffered" : "direct"); if (!b) checkStreams(); }
        else if (x == 3) { g_preempt = true; p.setBufferedOutput(!p.isBufferedOutputSet()); g_preempt = false; if (!p.isBufferedOutputSet()) sym_reach("switched"); checkStreams(); }
        else if (x == 4) {
            // what jom itself writes comes behind everything read so far
            int c = rt_choose("chan", 2); if (unread(c)) return; QByteArray d(1, mark++); g_want[c] += d; --writes; sym_reach("internal"); if (c) p.writeToStdErrBuffer(d); else p.writeToStdOutBuffer(d);
        }
        else if (x == 5) { w_exit(w_procs().last(), 0); exited = true; }
        else if (x == 6) { g_preempt = true; death(); g_preempt = false; sym_assert(g_finished == fin + 1, "the end of a process is noticed"); }
        else { posted = false; g_preempt = true; pump(); g_preempt = false; }
    }
    if (g_finished == fin) sym_assume(0); else sym_reach("ended");
    if (g_want[0].size() && g_want[1].size()) sym_reach("both");
}
extern "C" void E_run() { g_preempts = 2; Process p; p.setBufferedOutput(rt_bool("buffered")); connectTo(p); start(p, "cmd"); run(p, TIER == 2 ? 10 : 8, TIER == 2 ? 4 : 3, true, true); }
// pieces on different streams with different time stamps
extern "C" void E_order()
{
    Process p; connectTo(p); start(p, "cmd"); QByteArray order; int n = 2 + rt_choose("n", TIER == 2 ? 4 : 3), sw = rt_choose("switch", n + 1);
    for (int i = 0; i < n; ++i) { if (i == sw) p.setBufferedOutput(false); QByteArray d(1, (char)('A' + i)); order += d; if (rt_bool("intern") && p.isBufferedOutputSet()) { int c = rt_choose("chan", 2); g_want[c] += d; if (c) p.writeToStdErrBuffer(d); else p.writeToStdOutBuffer(d); } else { emitData(rt_choose("chan", 2), d); w_deliver(); } }
    if (sw == n) sym_reach("order"); else sym_reach("switched");
    w_exit(w_procs().last(), 0); death(); sym_assert(g_finished == 1, "the end of a process is noticed"); rt_observe("seq", g_seq); sym_assert(rt_eqb(g_seq, order), "what was written earlier is printed first, on whichever stream");
}
// notifications about the first command arrive while the second one runs
extern "C" void E_two()
{
    Process p; p.setBufferedOutput(rt_bool("buffered")); connectTo(p); start(p, "one"); if (rt_bool("w")) { emitData(rt_choose("chan", 2), "1"); w_deliver(); }
    w_exit(w_procs().last(), 0); int d = rt_choose("eof", 3); for (int i = 0; i < d; ++i) w_deliver(); if (rt_bool("pump")) pump(); if (!g_finished) death(); sym_assert(g_finished == 1, "the end of a process is noticed");
    if (!w_compl().isEmpty()) sym_reach("stale"); start(p, "two"); run(p, TIER == 2 ? 8 : 6, 2, false, false); sym_assert(g_finished == 2, "each end is reported once");
}
extern "C" void E_large()
{
    static const int S[] = { 4095, 4096, 4097, 5000, 8193, 12500 }; Process p; p.setBufferedOutput(rt_bool("buffered")); connectTo(p); start(p, "cmd");
    int c = rt_choose("chan", 2), n = S[rt_choose("size", 6)]; QByteArray d(n, 'x'); for (int i = 0; i < n; i += 97) d[i] = (char)('a' + i / 97 % 26); d[n - 1] = (char)rt_byte("last"); d[4094] = (char)rt_byte("edge");
    if (rt_bool("first")) { emitData(c, "start\r\n"); w_deliver(); } if (rt_bool("two")) { emitData(c, d.left(10)); emitData(c, d.mid(10)); } else emitData(c, d);
    for (int i = 0; i < 8 && !w_compl().isEmpty(); ++i) { if (i) sym_reach("split"); w_deliver(); } w_exit(w_procs().last(), 0); while (!w_compl().isEmpty()) w_deliver(); pump(); if (!g_finished) death(); sym_assert(g_finished == 1, "the end of a process is noticed"); sym_reach("ended");
}
// consoles may refuse to take a large piece at once
extern "C" void E_memory()
{
    static const int S[] = { 4097, 8191, 8192, 8193, 12288 }; g_refuse = 4096; Process p; connectTo(p); start(p, "cmd"); int c = rt_choose("chan", 2), n = S[rt_choose("size", 5)]; QByteArray d(n, 'x'); for (int i = 0; i < n; i += 97) d[i] = (char)('a' + i / 97 % 26); d[n - 1] = (char)rt_byte("last"); d[4096] = (char)rt_byte("edge");
    g_want[c] += d; if (c) p.writeToStdErrBuffer(d); else p.writeToStdOutBuffer(d); w_exit(w_procs().last(), 0); death(); sym_assert(g_finished == 1, "the end of a process is noticed"); sym_reach("chunked");
}
// ---- several targets at a time
static int pieces[4], maxPieces, live = -1; static bool endedT[4], failT[4];
static int who(const QString &cmd) { return cmd.at(cmd.size() - 1).unicode() - 'a'; }
static int procOf(int t) { for (int i = 0; i < w_procs().size(); ++i) if (who(w_procs().at(i).cmd) == t) return i; return -1; }
static QList<int> writers() { QList<int> l; for (int i : w_running()) if (pieces[who(w_procs().at(i).cmd)] < maxPieces) l << who(w_procs().at(i).cmd); return l; }
static int moreSteps() { return writers().size(); }
static void doMore(int k)
{
    int t = writers().at(k), before = rt_stdout().size(); QByteArray d; d += (char)('a' + t); d += (char)('1' + pieces[t]++); d += "\n"; w_output(w_procs()[procOf(t)], 0, d); while (!w_compl().isEmpty()) w_deliver();
    if (rt_stdout().size() != before) { sym_reach("live"); sym_assert(live < 0 || live == t || endedT[live], "the output of at most one running command is printed as it arrives"); live = t; }
    else if (w_running().size() > 1) sym_reach("parallel");
    // one of the running commands has the terminal (commands that have written nothing yet may be the one)
    bool shown = false; for (int i : w_running()) { int r = who(w_procs().at(i).cmd); if (!pieces[r]) shown = true; else { char l[] = { (char)('a' + r), (char)('0' + pieces[r]), '\n', 0 }; if (rt_stdout().contains(l)) shown = true; } }
    sym_assert(shown, "the output of one running command is printed as it arrives");
}
static bool mayFail;
static uint32_t codeOf(const QString &cmd) { int t = who(cmd); endedT[t] = true; failT[t] = mayFail && rt_bool("fail"); if (failT[t]) sym_reach("failed"); return failT[t] ? 1 : 0; }
static void targets(int n, bool silent, int jobs)
{
    QByteArray t1 = "tt:", t2; for (int i = 0; i < n; ++i) { char c = (char)('a' + i); t1 += " t"; t1 += c; t2 += "t"; t2 += c; t2 += silent ? ":\n\t@run " : ":\n\trun "; t2 += c; t2 += "\n"; }
    Mk mk; sym_assert(mk.read((t1 + "\n" + t2).constData()), "the makefile is read");
    mk.o->buildUnrelatedTargetsOnError = true; s_eager = true; s_moreSteps = moreSteps; s_doMore = doMore; s_exitCode = codeOf; s_build(mk, jobs);
    rt_observe("out", rt_stdout()); QByteArray out = rt_stdout(); int seen[4] = { 0, 0, 0, 0 }, runs[4] = { 0, 0, 0, 0 }, cur = -1, a = 0;
    for (int i = 0; i < out.size(); ++i) if (out.at(i) == '\n') {
        QByteArray l = out.mid(a, i - a); a = i + 1; int t = l.at(l.size() - (l.at(0) == '\t' ? 1 : 2)) - 'a'; sym_assert(t >= 0 && t < n, "only the output of commands is printed");
        int want = silent ? seen[t] + 1 : seen[t]; sym_assert(want ? l.size() == 2 && l.at(1) == '0' + want : l == QByteArray("\trun ") + (char)('a' + t), "the command line and the output of a command are printed in order, each once"); ++seen[t]; if (t != cur) ++runs[t]; cur = t;
    }
    sym_assert(a == out.size(), "complete lines"); for (int t = 0; t < n; ++t) sym_assert(seen[t] == pieces[t] + (silent ? 0 : 1), "everything is printed");
}
extern "C" void E_targets() { maxPieces = 2; mayFail = true; bool silent = rt_bool("silent"); targets(3, silent, TIER == 2 ? 1 + rt_choose("jobs", 3) : 3); }
// targets that wait for a process to become free
extern "C" void E_more() { maxPieces = TIER == 2 ? 2 : 1; targets(4, true, 2 + rt_choose("jobs", 2)); }
