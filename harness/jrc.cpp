// The client library's RPC layer on a connection that only records what is sent.
#include <functional>
#include <QJsonObject>
#include <QJsonDocument>
#include "proxyjsonrpcclient.h"
using namespace remoteproxyclient;

class StubConnection : public ProxyConnection
{
public:
    std::function<void(QString, QJsonValue)> cb;
    void sendData(const QByteArray &d) override { cb("sent", QString::fromLatin1(d.toHex())); }
    void ignoreSslErrors() override {}
    void ignoreSslErrors(const QList<QSslError> &) override {}
    void connectServer(const QUrl &) override {}
    void disconnectServer() override {}
};
class Jrc : public QObject
{
public:
    StubConnection con;
    JsonRpcClient *c = nullptr;
    int n = 0;
};
QObject *jrc_create(const QString &, std::function<void(QString, QJsonValue)> cb)
{
    Jrc *j = new Jrc;
    j->con.cb = cb;
    j->c = new JsonRpcClient(&j->con, j);
    QObject::connect(j->c, &JsonRpcClient::tunnelProxyClientConnected, j, [cb](const QString &n, const QUuid &u, const QString &p, quint16 a) { cb("conn", QJsonObject{{"n", n}, {"u", u.toString()}, {"p", p}, {"a", (int)a}}); });
    QObject::connect(j->c, &JsonRpcClient::tunnelProxyClientDisonnected, j, [cb](quint16 a) { cb("gone", (int)a); });
    return j;
}
int jrc_call(QObject *o, const QString &m, int arg)
{
    Jrc *j = static_cast<Jrc *>(o);
    QUuid u = QUuid::createUuidV5(QUuid(), QString::number(arg));
    int n = ++j->n;
    j->con.cb("call", n);
    JsonReply *r = m == "Hello" ? j->c->callHello() : m == "RegisterServer" ? j->c->callRegisterServer(u, "n") : m == "RegisterClient" ? j->c->callRegisterClient(u, "n", u)
                 : m == "Ping" ? j->c->callPing(arg) : j->c->callDisconnectClient(arg);
    auto cb = j->con.cb;
    QObject::connect(r, &JsonReply::finished, j, [cb, r, n]() { cb("done", QJsonObject{{"call", n}, {"resp", QJsonObject::fromVariantMap(r->response())}}); r->deleteLater(); });
    return n;
}
void jrc_data(QObject *o, const QByteArray &d) { static_cast<Jrc *>(o)->c->processData(d); }
