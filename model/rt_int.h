#pragma once
#include <QtCore/QtCore>
struct RtFile { QByteArray path, content; bool exists, isDir; quint64 mtime; };
QList<RtFile> &rt_files();
RtFile *rt_find(const QByteArray &path);
QByteArray rt_relPath(const QString &p);
void rt_nativeWrite(const QByteArray &path, const QByteArray &content, bool exists);
void rt_nativeTouch(const QByteArray &path, const QByteArray &content, bool exists);
void rt_nativeMkdir(const QByteArray &path);
