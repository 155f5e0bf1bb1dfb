// MonitorClient glue (kept apart: its header pulls in ncurses).
#include <functional>
#include <QVariantMap>
#include "monitorclient.h"
#undef timeout
#undef erase
QObject *mon_create(const QString &path, std::function<void(int, QVariantMap)> cb)
{
    MonitorClient *m = new MonitorClient(path, false);
    QObject::connect(m, &MonitorClient::connected, m, [cb]() { cb(0, QVariantMap()); });
    QObject::connect(m, &MonitorClient::disconnected, m, [cb]() { cb(1, QVariantMap()); });
    QObject::connect(m, &MonitorClient::dataReady, m, [cb](const QVariantMap &d) { cb(2, d); });
    return m;
}
void mon_connect(QObject *o) { static_cast<MonitorClient *>(o)->connectMonitor(); }
void mon_disconnect(QObject *o) { static_cast<MonitorClient *>(o)->disconnectMonitor(); }
void mon_refresh(QObject *o, bool all) { static_cast<MonitorClient *>(o)->setPrintAll(all); static_cast<MonitorClient *>(o)->refresh(); }
