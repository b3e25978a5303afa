#pragma once
#include <QtCore/QtCore>
class QWinEventNotifier;
struct RtNotifier { QWinEventNotifier *n; void *handle; bool enabled; };
QList<RtNotifier> &rt_notifiers();
void rt_fireNotifier(QWinEventNotifier *n);
