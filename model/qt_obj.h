#pragma once
#include <QtCore/QtCore>
class M_ObjData : public QObjectData { public: M_ObjData() : ext(nullptr), thr(nullptr) {} ~M_ObjData() override {} void *ext; QThread *thr; };
struct M_Access : QObject { static M_ObjData *d(const QObject *o) { return (M_ObjData *)(static_cast<const M_Access *>(o)->d_ptr.data()); } };
static inline M_ObjData *m_objData(const QObject *o) { return M_Access::d(o); }
