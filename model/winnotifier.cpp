// QWinEventNotifier for both modes (Qt has it in Windows builds only). The harness fires it with rt_fireNotifiers().
#include <QtCore/QtCore>
#include <QWinEventNotifier>
#include "rt.h"
#include "rt_notifier.h"
QList<RtNotifier> &rt_notifiers() { static QList<RtNotifier> l; return l; }
static RtNotifier *find(const QWinEventNotifier *n) { QList<RtNotifier> &l = rt_notifiers(); for (int i = 0; i < l.size(); ++i) if (l.at(i).n == n) return &l[i]; return nullptr; }
QWinEventNotifier::QWinEventNotifier(QObject *p) : QObject(p) { RtNotifier r = { this, nullptr, false }; rt_notifiers().append(r); }
QWinEventNotifier::QWinEventNotifier(HANDLE h, QObject *p) : QObject(p) { RtNotifier r = { this, h, true }; rt_notifiers().append(r); }
QWinEventNotifier::~QWinEventNotifier() { QList<RtNotifier> &l = rt_notifiers(); for (int i = l.size(); i-- > 0;) if (l.at(i).n == this) l.removeAt(i); }
void QWinEventNotifier::setHandle(HANDLE h) { RtNotifier *r = find(this); r->enabled = false; r->handle = h; }
QWinEventNotifier::HANDLE QWinEventNotifier::handle() const { return find(this)->handle; }
bool QWinEventNotifier::isEnabled() const { return find(this)->enabled; }
void QWinEventNotifier::setEnabled(bool e) { find(this)->enabled = e; }
void rt_fireNotifier(QWinEventNotifier *n) { static_cast<QObject *>(n)->event(nullptr); }
bool QWinEventNotifier::event(QEvent *) { emit activated(handle(), QPrivateSignal()); return true; }
#include "moc_qwineventnotifier.cpp"
