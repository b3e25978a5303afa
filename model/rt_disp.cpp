// Native event dispatcher; compiled like an ordinary Linux Qt program because its base class has other virtual functions under Windows.
#include <QtCore/QtCore>
#include <atomic>
#include <unistd.h>
extern "C" void sym_fail(const char *label) __attribute__((noreturn));
bool rt_loopStep() __attribute__((weak));
struct Tm { int id; QObject *o; int iv; Qt::TimerType ty; };
struct Disp : QAbstractEventDispatcher {
    QList<Tm> timers; std::atomic<bool> woken{false}; int lastLevel = -1; bool pumped = false;
    void pump() { do { woken = false; QCoreApplication::sendPostedEvents(nullptr, 0); } while (woken); }
    bool fire() { if (timers.isEmpty()) return false; Tm t = timers.takeFirst(); timers.append(t); QTimerEvent e(t.id); QCoreApplication::sendEvent(t.o, &e); return true; }
    bool processEvents(QEventLoop::ProcessEventsFlags) override
    {
        int lv = QThread::currentThread()->loopLevel();
        if (lv != lastLevel || !pumped || woken) { pump(); lastLevel = lv; pumped = true; return true; }
        pumped = false;
        if ((!rt_loopStep || !rt_loopStep()) && !fire()) sym_fail("event loop waits for an event that can never arrive");
        return true;
    }
    bool hasPendingEvents() override { return woken; }
    void registerSocketNotifier(QSocketNotifier *) override {}
    void unregisterSocketNotifier(QSocketNotifier *) override {}
    void registerTimer(int id, int iv, Qt::TimerType ty, QObject *o) override { timers.append(Tm{ id, o, iv, ty }); }
    bool unregisterTimer(int id) override { for (int i = 0; i < timers.size(); ++i) if (timers[i].id == id) { timers.removeAt(i); return true; } return false; }
    bool unregisterTimers(QObject *o) override { for (int i = timers.size(); i-- > 0;) if (timers[i].o == o) timers.removeAt(i); return true; }
    QList<TimerInfo> registeredTimers(QObject *o) const override { QList<TimerInfo> l; for (const Tm &t : timers) if (t.o == o) l.append(TimerInfo(t.id, t.iv, t.ty)); return l; }
    int remainingTime(int) override { return 0; }
    void wakeUp() override { woken = true; }
    void interrupt() override {}
    void flush() override {}
};
static Disp *g_disp;
void rt_pump() { g_disp->pump(); }
bool rt_fireTimer() { return g_disp->fire(); }
void rt_waitWoken() { while (!g_disp->woken) usleep(200); }
void rt_wokenClear() { g_disp->woken = false; }
void rt_dispInstall() { g_disp = new Disp; QCoreApplication::setEventDispatcher(g_disp); }
