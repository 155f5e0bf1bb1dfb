// Conformance driver: runs the real proxy engine and the real client library in one process under
// virtual time, executes commands read as JSON lines, reports everything the peers observe.
#include <QDir>
#include <set>
#include <mutex>
#include <sys/stat.h>
#include <sys/socket.h>
#include <QtCore>
#include <QtNetwork>
#include <QtWebSockets>
#include <functional>
#include <map>
#include <vector>
#include <stdio.h>
#include <unistd.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include "vclock.h"
#include "engine.h"
#include "proxyconfiguration.h"
#include "server/transportinterface.h"
#include "server/transportclient.h"
#include "tunnelproxy/tunnelproxyserver.h"
#include "tunnelproxy/tunnelproxysocketserver.h"
#include "tunnelproxy/tunnelproxysocket.h"
#include "tunnelproxy/tunnelproxyremoteconnection.h"

using remoteproxy::Engine;
using remoteproxy::ProxyConfiguration;
using remoteproxyclient::TunnelProxySocketServer;
using remoteproxyclient::TunnelProxySocket;
using remoteproxyclient::TunnelProxyRemoteConnection;

QObject *jrc_create(const QString &id, std::function<void(QString, QJsonValue)> cb);
int jrc_call(QObject *o, const QString &m, int arg);
void jrc_data(QObject *o, const QByteArray &d);
QObject *mon_create(const QString &path, std::function<void(int, QVariantMap)> cb);
void mon_connect(QObject *o);
void mon_disconnect(QObject *o);
void mon_refresh(QObject *o, bool all);

static QJsonArray g_log;
static bool g_mute = false;
static void emitEv(const QString &who, const QString &what, const QJsonValue &arg = QJsonValue())
{
    if (g_mute) return;
    g_log.append(QJsonArray{(double)vclock_now_ms(), who, what, arg});
}
static QString hex(const QByteArray &b) { return QString::fromLatin1(b.toHex()); }
static QByteArray unhex(const QString &s) { return QByteArray::fromHex(s.toLatin1()); }

// ---------------------------------------------------------------- in-process transport
class FakeTransport : public remoteproxy::TransportInterface
{
public:
    struct C { QString id; QUuid uuid; bool async = false; bool killed = false; QByteArray rx; };
    QHash<QUuid, C *> byUuid;
    QHash<QString, C *> byId;
    bool capture = false;
    explicit FakeTransport(const QString &name) : TransportInterface(nullptr) { m_serverName = name; }
    ~FakeTransport() override {}
    void sendData(const QUuid &clientId, const QByteArray &data) override {
        C *c = byUuid.value(clientId);
        if (!c || c->killed) return;
        if (capture) { c->rx.append(data); return; }
        emitEv(c->id, "rx", hex(data));
    }
    void killClientConnection(const QUuid &clientId, const QString &) override {
        C *c = byUuid.value(clientId);
        if (!c || c->killed) return;
        c->killed = true;
        emitEv(c->id, "closed");
        if (!c->async) gone(c);
    }
    void gone(C *c) {
        QUuid u = c->uuid;
        byUuid.remove(u);
        byId.remove(c->id);
        delete c;
        emit clientDisconnected(u);
    }
    uint connectionsCount() const override { return byUuid.count(); }
    bool running() const override { return true; }
    bool startServer() override { return true; }
    bool stopServer() override {
        foreach (const QUuid &u, byUuid.keys()) killClientConnection(u, "stop");
        return true;
    }
    void connectPeer(const QString &id, const QHostAddress &a, bool async) {
        C *c = new C; c->id = id; c->uuid = QUuid::createUuid(); c->async = async;
        byUuid.insert(c->uuid, c); byId.insert(id, c);
        emit clientConnected(c->uuid, a);
    }
    void data(const QString &id, const QByteArray &d) { C *c = byId.value(id); if (c && !c->killed) emit dataAvailable(c->uuid, d); }
    void closePeer(const QString &id) { C *c = byId.value(id); if (c) gone(c); }
};

static FakeTransport *g_fake[2] = {nullptr, nullptr};

// ---------------------------------------------------------------- raw peers and scripted proxies
struct Peer { QString id; QTcpSocket *tcp = nullptr; QLocalSocket *loc = nullptr; QWebSocket *ws = nullptr; bool dead = false; bool held = false; };
static std::map<QString, Peer *> g_peers;
static bool g_real = false;

static void hookTcp(Peer *p) {
    QTcpSocket *s = p->tcp;
    QObject::connect(s, &QTcpSocket::readyRead, s, [p, s]() { if (p->held) return; QByteArray d = s->readAll(); if (!d.isEmpty() && !p->dead) emitEv(p->id, "rx", hex(d)); });
    QObject::connect(s, &QTcpSocket::disconnected, s, [p, s]() {
        if (p->dead) return;
        QByteArray d = s->readAll(); if (!d.isEmpty()) emitEv(p->id, "rx", hex(d));
        p->dead = true; emitEv(p->id, "closed"); });
}
static void hookLoc(Peer *p) {
    QLocalSocket *s = p->loc;
    QObject::connect(s, &QLocalSocket::readyRead, s, [p, s]() { if (p->held) return; QByteArray d = s->readAll(); if (!d.isEmpty() && !p->dead) emitEv(p->id, "rx", hex(d)); });
    QObject::connect(s, &QLocalSocket::disconnected, s, [p, s]() {
        if (p->dead) return;
        QByteArray d = s->readAll(); if (!d.isEmpty()) emitEv(p->id, "rx", hex(d));
        p->dead = true; emitEv(p->id, "closed"); });
}
static void hookWs(Peer *p) {
    QWebSocket *s = p->ws;
    QObject::connect(s, &QWebSocket::textMessageReceived, s, [p](const QString &m) { if (!p->dead) emitEv(p->id, "rx", hex(m.toUtf8())); });
    QObject::connect(s, &QWebSocket::binaryMessageReceived, s, [p](const QByteArray &m) { if (!p->dead) emitEv(p->id, "bin", hex(m)); });
    QObject::connect(s, &QWebSocket::disconnected, s, [p]() { if (p->dead) return; p->dead = true; emitEv(p->id, "closed"); });
}

class SslListener : public QTcpServer {
public:
    QSslConfiguration conf; bool tls = false; std::function<void(QTcpSocket *)> cb;
    void incomingConnection(qintptr fd) override {
        if (tls) {
            QSslSocket *s = new QSslSocket(this);
            s->setSocketDescriptor(fd); s->setSslConfiguration(conf);
            std::function<void(QTcpSocket *)> f = cb;
            QObject::connect(s, &QSslSocket::encrypted, s, [s, f]() { f(s); });
            s->startServerEncryption();
        } else {
            QTcpSocket *s = new QTcpSocket(this);
            s->setSocketDescriptor(fd);
            cb(s);
        }
    }
};
struct Lst { SslListener *tcp = nullptr; QWebSocketServer *ws = nullptr; };
static std::map<QString, Lst> g_lst;
static int g_acc = 0;
static QSslConfiguration sslConf(const QString &cert, const QString &key) {
    QSslConfiguration c; c.setPeerVerifyMode(QSslSocket::VerifyNone); c.setProtocol(QSsl::TlsV1_2OrLater);
    QFile f(cert); f.open(QIODevice::ReadOnly); c.setLocalCertificate(QSslCertificate(&f, QSsl::Pem));
    QFile k(key); k.open(QIODevice::ReadOnly); c.setPrivateKey(QSslKey(&k, QSsl::Rsa, QSsl::Pem, QSsl::PrivateKey));
    return c;
}

// ---------------------------------------------------------------- a network in between that can fail
class Relay : public QTcpServer {
public:
    QHostAddress toHost; quint16 toPort = 0; QSet<QTcpSocket *> all;
    void incomingConnection(qintptr fd) override {
        QTcpSocket *a = new QTcpSocket(this), *b = new QTcpSocket(this);
        a->setSocketDescriptor(fd); all << a << b;
        pipe(a, b); pipe(b, a);
        b->connectToHost(toHost, toPort);
    }
    void pipe(QTcpSocket *from, QTcpSocket *to) {
        auto move = [from, to]() { if (to->state() == QAbstractSocket::ConnectedState) { QByteArray d = from->readAll(); if (!d.isEmpty()) { to->write(d); to->flush(); } } };
        QObject::connect(from, &QTcpSocket::readyRead, to, move);
        QObject::connect(to, &QTcpSocket::connected, from, move);
        QObject::connect(from, &QTcpSocket::disconnected, to, [this, from, to, move]() { move(); all.remove(from); from->deleteLater(); if (to->state() == QAbstractSocket::ConnectedState) to->disconnectFromHost(); else to->abort(); });
        QObject::connect(from, static_cast<void (QTcpSocket::*)(QAbstractSocket::SocketError)>(&QTcpSocket::error), to, [from, to](QAbstractSocket::SocketError e) { if (e != QAbstractSocket::RemoteHostClosedError) to->abort(); });
    }
    void cut() { foreach (QTcpSocket *s, all.values()) if (all.contains(s)) s->abort(); }
};
static std::map<QString, Relay *> g_relay;

// ---------------------------------------------------------------- client library objects
struct Sock { QPointer<TunnelProxySocket> s; };
static std::map<QString, QPointer<TunnelProxySocketServer>> g_tps;
static std::map<QString, Sock> g_socks;
static std::map<QString, QPointer<TunnelProxyRemoteConnection>> g_trc;
static std::map<QString, QPointer<QObject>> g_mon;
static std::map<QString, QPointer<QObject>> g_jrc;
// what the application does from within a signal of the library: "<object>/<signal>" -> commands
static QMap<QString, QJsonArray> g_hooks;
extern quintptr Q_CORE_EXPORT qtHookData[]; // Qt's hooks for tools: called for each QObject made (3) and removed (4)
static std::set<QObject *> alive; static std::mutex aliveMutex;

static QJsonValue doOne(const QJsonObject &c);
static QString g_hookSock;                       // the socket a hook speaks about
static QMap<QString, QString> g_hookSockOf;      // last one of each tunnel server
static void fire(const QString &key)
{
    g_hookSock = g_hookSockOf.value(key.section(QLatin1Char('/'), 0, 0));
    if (!g_hooks.contains(key)) return;
    QJsonArray ops = g_hooks.take(key);
    foreach (const QJsonValue &v, ops) { QJsonValue r = doOne(v.toObject()); emitEv(key, "hook", r); }
}
static int g_sockId = 0;

static QSet<QString> g_strict;
static QMap<quintptr, QString> g_sockNames;

static QString enumKey(const QMetaObject &mo, const char *en, int v) { return QString::fromLatin1(mo.enumerator(mo.indexOfEnumerator(en)).valueToKey(v)); }

static void hookTps(const QString &id, TunnelProxySocketServer *s) {
    QObject::connect(s, &TunnelProxySocketServer::stateChanged, s, [id](TunnelProxySocketServer::State st) { QString k = enumKey(TunnelProxySocketServer::staticMetaObject, "State", st); emitEv(id, "state", k); fire(id + "/" + k); });
    QObject::connect(s, &TunnelProxySocketServer::runningChanged, s, [id](bool r) { emitEv(id, "running", r); fire(id + (r ? "/run" : "/norun")); });
    QObject::connect(s, &TunnelProxySocketServer::sslErrors, s, [id, s](const QList<QSslError> &) { if (!g_strict.contains(id)) s->ignoreSslErrors(); });
    QObject::connect(s, &TunnelProxySocketServer::serverErrorOccurred, s, [id](TunnelProxySocketServer::Error e) { emitEv(id, "serr", enumKey(TunnelProxySocketServer::staticMetaObject, "Error", e)); });
    QObject::connect(s, &TunnelProxySocketServer::errorOccurred, s, [id](QAbstractSocket::SocketError e) { emitEv(id, "err", (int)e); });
    QObject::connect(s, &TunnelProxySocketServer::clientConnected, s, [id](TunnelProxySocket *k) {
        QString sid = QString("k%1").arg(++g_sockId);
        g_socks[sid].s = k;
        g_sockNames[(quintptr)k] = sid;
        emitEv(id, "newsock", QJsonObject{{"s", sid}, {"uuid", k->clientUuid().toString()}, {"name", k->clientName()}, {"peer", k->clientPeerAddress().toString()}, {"a", (int)k->socketAddress()}, {"up", k->connected()}});
        QObject::connect(k, &TunnelProxySocket::dataReceived, k, [sid, id](const QByteArray &d) { emitEv(sid, "rx", hex(d)); g_hookSockOf[id] = sid; fire(id + "/rx"); });
        QObject::connect(k, &TunnelProxySocket::disconnected, k, [sid, id, k]() { emitEv(sid, "gone", k->connected()); g_hookSockOf[id] = sid; fire(id + "/gone"); });
        QObject::connect(k, &TunnelProxySocket::connectedChanged, k, [sid](bool c) { emitEv(sid, "cc", c); });
        g_hookSockOf[id] = sid; fire(id + "/new");
    });
    QObject::connect(s, &TunnelProxySocketServer::clientDisconnected, s, [id](TunnelProxySocket *k) {
        emitEv(id, "delsock", QJsonObject{{"s", g_sockNames.value((quintptr)k, "?")}, {"up", k->connected()}});
        g_sockNames.remove((quintptr)k);
    });
}
static void hookTrc(const QString &id, TunnelProxyRemoteConnection *s) {
    QObject::connect(s, &TunnelProxyRemoteConnection::stateChanged, s, [id](TunnelProxyRemoteConnection::State st) { QString k = enumKey(TunnelProxyRemoteConnection::staticMetaObject, "State", st); emitEv(id, "state", k); fire(id + "/" + k); });
    QObject::connect(s, &TunnelProxyRemoteConnection::remoteConnectedChanged, s, [id](bool r) { emitEv(id, "remote", r); fire(id + (r ? "/remote" : "/noremote")); });
    QObject::connect(s, &TunnelProxyRemoteConnection::sslErrors, s, [id, s](const QList<QSslError> &) { if (!g_strict.contains(id)) s->ignoreSslErrors(); });
    QObject::connect(s, &TunnelProxyRemoteConnection::errorOccurred, s, [id](QAbstractSocket::SocketError e) { emitEv(id, "err", (int)e); });
    QObject::connect(s, &TunnelProxyRemoteConnection::dataReady, s, [id](const QByteArray &d) { emitEv(id, "rx", hex(d)); fire(id + "/rx"); });
}

// ---------------------------------------------------------------- event loop control
static int g_rounds = 3;
static int g_roundUs = 300;
static void quiesce()
{
    int idle = 0, posted = 0;
    int need = g_real ? g_rounds : 1;
    int guard = 0, held = 0;
    QAbstractEventDispatcher *ed = QAbstractEventDispatcher::instance();
    while (idle <= need && guard++ < 200000) {
        if (ed->processEvents(QEventLoop::AllEvents)) { idle = 0; posted = 0; continue; }
        if (ed->hasPendingEvents() && posted++ < 60) continue;
        idle++;
        if (g_real && idle > need && held < 400 && vclock_inflight()) { idle = need; if (++held == 400 && getenv("RPX_HELD")) fprintf(stderr, "HELD\n"); }
        if (g_real && idle <= need) usleep(g_roundUs);
    }
}
static void advance(qint64 ms)
{
    vclock_begin(ms);
    while (!vclock_done()) QCoreApplication::processEvents(QEventLoop::AllEvents | QEventLoop::WaitForMoreEvents);
    vclock_end();
    quiesce();
}
static void inLoop(std::function<void()> f)
{
    // run inside event delivery, as in a running application
    static QObject ctx;
    QMetaObject::invokeMethod(&ctx, f, Qt::QueuedConnection);
    QCoreApplication::processEvents(QEventLoop::AllEvents);
}

static QJsonObject confDump(ProxyConfiguration *c) {
    QJsonObject o;
    o["name"] = c->serverName(); o["writeLogs"] = c->writeLogFile(); o["logFile"] = c->logFileName(); o["logEngineEnabled"] = c->logEngineEnabled();
    o["monitorSocket"] = c->monitorSocketFileName(); o["jsonRpcTimeout"] = c->jsonRpcTimeout(); o["inactiveTimeout"] = c->inactiveTimeout();
    o["sslEnabled"] = c->sslEnabled(); o["certificate"] = c->sslCertificateFileName(); o["certificateKey"] = c->sslCertificateKeyFileName(); o["certificateChain"] = c->sslCertificateChainFileName();
    o["unixSocketFileName"] = c->unixSocketFileName();
    o["wsHost"] = c->webSocketServerTunnelProxyHost().toString(); o["wsPort"] = (int)c->webSocketServerTunnelProxyPort();
    o["tcpHost"] = c->tcpServerTunnelProxyHost().toString(); o["tcpPort"] = (int)c->tcpServerTunnelProxyPort();
    QSslConfiguration s = c->sslConfiguration();
    o["certHash"] = hex(s.localCertificate().digest(QCryptographicHash::Sha1)); o["keyNull"] = s.privateKey().isNull();
    o["caHash"] = s.caCertificates().count() == 1 ? hex(s.caCertificates().first().digest(QCryptographicHash::Sha1)) : QString();
    return o;
}

static QJsonValue doOne(const QJsonObject &c);

static QJsonObject churn(const QJsonObject &c)
{
    // Many clients register with the tunnel server peer "srv" (on the in-process transport) and leave again.
    QString srv = c["srv"].toString(); QUuid su(c["uuid"].toString());
    int n = c["n"].toInt(); int hold = c["hold"].toInt(); // every client with index < hold stays
    FakeTransport *ft = g_fake[0];
    FakeTransport::C *sc = ft->byId.value(srv);
    QJsonObject res;
    if (!sc) { res["err"] = "no server"; return res; }
    g_mute = true; ft->capture = true;
    QVector<int> last(65536, -1); for (int i = 0; i < 65536; i++) last[i] = -1;
    QVector<int> addrs; QJsonArray held; int mind = 1 << 30; int bad = 0; QString why;
    QUuid scu = sc->uuid;
    for (int i = 0; i < n; i++) {
        QString id = c["prefix"].toString() + QString::number(i);
        QUuid cu = QUuid::createUuidV5(QUuid(), id);
        inLoop([&]() { ft->connectPeer(id, QHostAddress("10.9.8.7"), false); });
        FakeTransport::C *cc = ft->byId.value(id);
        QByteArray req = QByteArray("{\"id\":") + QByteArray::number(i) + ",\"method\":\"TunnelProxy.RegisterClient\",\"params\":{\"clientName\":\"n\",\"clientUuid\":\"" + cu.toByteArray() + "\",\"serverUuid\":\"" + su.toByteArray() + "\"}}\n";
        sc = ft->byUuid.value(scu); if (!sc) { bad++; why = "server gone"; break; }
        sc->rx.clear();
        inLoop([&]() { ft->data(id, req); });
        cc = ft->byId.value(id);
        sc = ft->byUuid.value(scu);
        if (!cc || !sc || !cc->rx.contains("TunnelProxyErrorNoError")) { bad++; if (why.isEmpty()) why = "registration " + QString::number(i) + " refused"; if (!sc) break; continue; }
        int k = sc->rx.indexOf("\"socketAddress\":");
        if (k < 0 || !sc->rx.contains("ClientConnected") || !sc->rx.contains(cu.toByteArray())) { bad++; if (why.isEmpty()) why = "no notification " + QString::number(i); continue; }
        int a = atoi(sc->rx.constData() + k + 16);
        addrs.append(a);
        if (a >= 0 && a < 65536) { if (last[a] >= 0) mind = qMin(mind, i - last[a]); last[a] = i; }
        if (i < hold) { held.append(QJsonArray{id, cu.toString(), a}); cc->rx.clear(); continue; }
        sc->rx.clear();
        inLoop([&]() { ft->closePeer(id); });
        sc = ft->byUuid.value(scu);
        int z = sc ? sc->rx.indexOf("\"socketAddress\":") : -1;
        if (!sc || !sc->rx.contains("ClientDisconnected") || atoi(sc->rx.constData() + z + 16) != a) { bad++; if (why.isEmpty()) why = "no departure " + QString::number(i); }
    }
    sc = ft->byUuid.value(scu); if (sc) sc->rx.clear();
    g_mute = false; ft->capture = false;
    QJsonArray runs;
    for (int i = 0; i < addrs.size();) { int j = i; while (j + 1 < addrs.size() && addrs[j + 1] == addrs[j] + 1) j++; runs.append(QJsonArray{addrs[i], addrs[j]}); i = j + 1; if (runs.size() > 4000) break; }
    res["runs"] = runs; res["mind"] = mind; res["bad"] = bad; res["why"] = why; res["held"] = held; res["last"] = addrs.isEmpty() ? 0 : addrs.last(); res["n"] = addrs.size();
    return res;
}

static QByteArray payload(const QJsonObject &c) {
    if (c.contains("hex")) return unhex(c["hex"].toString());
    return QByteArray();
}

static QJsonValue doOne(const QJsonObject &c)
{
    QString op = c["op"].toString();
    QString id = c["id"].toString();
    // ---- engine
    if (op == "start") {
        ProxyConfiguration *conf = new ProxyConfiguration(nullptr);
        bool ok = conf->loadConfiguration(c["conf"].toString());
        if (!ok) { delete conf; return QJsonObject{{"ok", false}}; }
        Engine::instance()->start(conf);
        for (int i = 0; i < 2; i++) {
            if (g_fake[i]) { delete g_fake[i]; g_fake[i] = nullptr; }
            if (c["fake"].toInt() > i) { g_fake[i] = new FakeTransport(QString("Fake%1").arg(i)); Engine::instance()->tunnelProxyServer()->registerTransportInterface(g_fake[i]); }
        }
        return QJsonObject{{"ok", true}};
    }
    if (op == "kept") { // what the proxy holds on to: its objects, and the sockets of this process
        // every living object of the engine, and what else is left without belonging to it or to one of this driver's peers
        std::set<QObject *> mine; for (auto &x : g_peers) for (QObject *o : {(QObject *)x.second->tcp, (QObject *)x.second->loc, (QObject *)x.second->ws}) mine.insert(o);
        int objects = 0; QMap<QString, int> names; std::lock_guard<std::mutex> l(aliveMutex);
        for (QObject *o : alive) {
            QObject *root = o; while (root->parent()) root = root->parent();
            QString n(o->metaObject()->className());
            if (root != Engine::instance() && (mine.count(root) || root->inherits("MonitorClient") || !(n.startsWith("remoteproxy::") || o->inherits("QTimer") || o->inherits("QIODevice") || o->inherits("QWebSocket")))) continue;
            objects++; names[n]++;
        }
        std::set<int> fds; // the sockets of this driver's peers
        for (QObject *o : alive) {
            QObject *root = o; while (root->parent()) root = root->parent();
            if (!mine.count(root) && !root->inherits("MonitorClient")) continue;
            if (QAbstractSocket *a = qobject_cast<QAbstractSocket *>(o)) fds.insert(int(a->socketDescriptor()));
            if (QLocalSocket *a = qobject_cast<QLocalSocket *>(o)) fds.insert(int(a->socketDescriptor()));
        }
        int socks = 0;
        foreach (const QString &f, QDir("/proc/self/fd").entryList(QDir::System | QDir::Files | QDir::NoDotAndDotDot)) {
            struct stat sb; int fd = f.toInt(), on = 0; socklen_t len = sizeof on;
            if (!fds.count(fd) && fstat(fd, &sb) == 0 && S_ISSOCK(sb.st_mode) && getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &on, &len) == 0 && !on) socks++;
        }
        QJsonObject by; for (auto i = names.begin(); i != names.end(); ++i) by[i.key()] = i.value();
        return QJsonObject{{"objects", objects}, {"socks", socks}, {"by", by}};
    }
    if (op == "pending") { // bytes that wait in the proxy for peers that do not read them
        double n = 0;
        foreach (QIODevice *d, Engine::instance()->findChildren<QIODevice *>()) n += d->bytesToWrite();
        return n;
    }
    if (op == "stop") { Engine::instance()->stop(); return QJsonObject{{"ok", true}}; }
    if (op == "destroy") { Engine::instance()->destroy(); for (int i = 0; i < 2; i++) { delete g_fake[i]; g_fake[i] = nullptr; } return QJsonObject{{"ok", true}}; }
    if (op == "running") {
        if (!Engine::exists()) return QJsonObject{{"exists", false}};
        Engine *e = Engine::instance();
        QJsonObject o{{"exists", true}, {"engine", e->running()}};
        o["tps"] = e->tunnelProxyServer() && e->tunnelProxyServer()->running();
        o["ws"] = e->webSocketServerTunnelProxy() && e->webSocketServerTunnelProxy()->running();
        o["tcp"] = e->tcpSocketServerTunnelProxy() && e->tcpSocketServerTunnelProxy()->running();
        o["unix"] = e->unixSocketServerTunnelProxy() && e->unixSocketServerTunnelProxy()->running();
        o["mon"] = e->monitorServer() && e->monitorServer()->running();
        return o;
    }
    if (op == "stats") {
        if (!Engine::exists() || !Engine::instance()->tunnelProxyServer()) return QJsonValue();
        return QJsonObject::fromVariantMap(Engine::instance()->buildMonitorData(c["all"].toBool()));
    }
    if (op == "conf") {
        static ProxyConfiguration *kept = nullptr;      // one that has loaded other files before
        if (!c["keep"].toBool()) { delete kept; kept = nullptr; }
        if (!kept) kept = new ProxyConfiguration(nullptr);
        bool ok = kept->loadConfiguration(c["conf"].toString());
        QJsonObject o; if (ok) o = confDump(kept); o["ok"] = ok; return o;
    }
    if (op == "churn") return churn(c);
    if (op == "nop") return QJsonValue();
    // ---- in-process peers
    if (op == "fconn") { if (!g_fake[c["tr"].toInt()]) return QJsonObject{{"err", "no engine"}}; g_fake[c["tr"].toInt()]->connectPeer(id, QHostAddress(c["addr"].toString("127.0.0.1")), c["async"].toBool()); return QJsonValue(); }
    if (op == "fsend") { for (int i = 0; i < 2; i++) if (g_fake[i] && g_fake[i]->byId.contains(id)) { foreach (const QJsonValue &v, c["chunks"].toArray()) g_fake[i]->data(id, unhex(v.toString())); break; } return QJsonValue(); }
    if (op == "fclose") { for (int i = 0; i < 2; i++) if (g_fake[i] && g_fake[i]->byId.contains(id)) { g_fake[i]->closePeer(id); break; } return QJsonValue(); }
    // ---- raw peers
    if (op == "open") {
        g_real = true;
        QString k = c["kind"].toString();
        Peer *p = new Peer; p->id = id; g_peers[id] = p;
        QHostAddress host(c["host"].toString("127.0.0.1"));
        if (k == "tcp") { p->tcp = new QTcpSocket; hookTcp(p); QObject::connect(p->tcp, &QTcpSocket::connected, p->tcp, [id]() { emitEv(id, "up"); });
            if (c.contains("bind")) p->tcp->bind(QHostAddress(c["bind"].toString()));
            p->tcp->connectToHost(host, c["port"].toInt()); }
        else if (k == "tls") { QSslSocket *s = new QSslSocket; p->tcp = s; s->setPeerVerifyMode(QSslSocket::VerifyNone); if (c["old"].toBool()) s->setProtocol(QSsl::TlsV1_2); hookTcp(p);
            QObject::connect(s, &QSslSocket::encrypted, s, [id, s]() { emitEv(id, "up", hex(s->peerCertificate().digest(QCryptographicHash::Sha1))); });
            if (c.contains("bind")) s->bind(QHostAddress(c["bind"].toString()));
            s->connectToHostEncrypted(host.toString(), c["port"].toInt()); }
        else if (k == "unix") { p->loc = new QLocalSocket; hookLoc(p); QObject::connect(p->loc, &QLocalSocket::connected, p->loc, [id]() { emitEv(id, "up"); });
            p->loc->connectToServer(c["path"].toString()); }
        else { p->ws = new QWebSocket("rpx", QWebSocketProtocol::Version13); hookWs(p);
            QWebSocket *s = p->ws; QObject::connect(s, &QWebSocket::connected, s, [id]() { emitEv(id, "up"); });
            QSslConfiguration sc; sc.setPeerVerifyMode(QSslSocket::VerifyNone); if (c["old"].toBool()) sc.setProtocol(QSsl::TlsV1_2); s->setSslConfiguration(sc);
            s->open(QUrl(QString("%1://%2:%3").arg(k == "wss" ? "wss" : "ws").arg(host.protocol() == QAbstractSocket::IPv6Protocol ? "[" + host.toString() + "]" : host.toString()).arg(c["port"].toInt()))); }
        return QJsonValue();
    }
    if (op == "send") {
        Peer *p = g_peers[id]; if (!p || p->dead) return QJsonValue();
        bool first = true;
        foreach (const QJsonValue &v, c["chunks"].toArray()) {
            if (!first) { // separate chunks: let the other side read before the next one
                quiesce();
                if (p->dead) break;
            }
            first = false;
            QByteArray d = unhex(v.toString());
            if (c.contains("rep")) d = d.repeated(c["rep"].toInt());
            if (p->tcp) { p->tcp->write(d); p->tcp->flush(); }
            if (p->loc) { p->loc->write(d); p->loc->flush(); }
            if (p->ws) { if (c["bin"].toBool()) p->ws->sendBinaryMessage(d); else p->ws->sendTextMessage(QString::fromUtf8(d)); p->ws->flush(); }
        }
        return QJsonValue();
    }
    if (op == "hold" || op == "release") { // a peer that does not read for a while (not for WebSocket peers of Qt)
        Peer *p = g_peers[id]; if (!p) return QJsonValue();
        p->held = op == "hold";
        if (p->tcp) p->tcp->setReadBufferSize(p->held ? 4096 : 0);
        if (p->loc) p->loc->setReadBufferSize(p->held ? 4096 : 0);
        if (!p->held && p->tcp) emit p->tcp->readyRead();
        if (!p->held && p->loc) emit p->loc->readyRead();
        return QJsonValue();
    }
    if (op == "close" || op == "abort") {
        Peer *p = g_peers[id]; if (!p) return QJsonValue();
        p->dead = true;
        if (p->tcp) { if (op == "abort") { p->tcp->abort(); } else { p->tcp->disconnectFromHost(); } }
        if (p->loc) { if (op == "abort") p->loc->abort(); else p->loc->disconnectFromServer(); }
        if (p->ws) { if (op == "abort") p->ws->abort(); else p->ws->close(); }
        return QJsonValue();
    }
    if (op == "starttls") { // upgrade a plain tcp peer opened as QSslSocket
        Peer *p = g_peers[id]; if (p && p->tcp) { QSslSocket *s = qobject_cast<QSslSocket *>(p->tcp); if (s) s->startClientEncryption(); } return QJsonValue();
    }
    if (op == "opentcpssl") { // plain connection that may start TLS later
        g_real = true;
        Peer *p = new Peer; p->id = id; g_peers[id] = p; QSslSocket *s = new QSslSocket; p->tcp = s; s->setPeerVerifyMode(QSslSocket::VerifyNone); hookTcp(p);
        QObject::connect(s, &QSslSocket::connected, s, [id]() { emitEv(id, "tcpup"); });
        QObject::connect(s, &QSslSocket::encrypted, s, [id, s]() { emitEv(id, "up", hex(s->peerCertificate().digest(QCryptographicHash::Sha1))); });
        s->connectToHost(QHostAddress(c["host"].toString("127.0.0.1")), c["port"].toInt());
        return QJsonValue();
    }
    // ---- scripted proxies
    if (op == "listen") {
        g_real = true;
        Lst l; QString k = c["kind"].toString(); bool ok;
        if (k == "ws") {
            l.ws = new QWebSocketServer("x", QWebSocketServer::NonSecureMode);
            QWebSocketServer *w = l.ws;
            QObject::connect(w, &QWebSocketServer::newConnection, w, [id, w]() { while (w->hasPendingConnections()) { Peer *p = new Peer; p->id = QString("a%1").arg(++g_acc); p->ws = w->nextPendingConnection(); g_peers[p->id] = p; emitEv(id, "acc", p->id); hookWs(p); } });
            ok = w->listen(QHostAddress(c["host"].toString("127.0.0.1")), c["port"].toInt());
        } else {
            l.tcp = new SslListener; l.tcp->tls = (k == "tls");
            if (l.tcp->tls) l.tcp->conf = sslConf(c["cert"].toString(), c["key"].toString());
            l.tcp->cb = [id](QTcpSocket *s) { Peer *p = new Peer; p->id = QString("a%1").arg(++g_acc); p->tcp = s; g_peers[p->id] = p; emitEv(id, "acc", p->id); hookTcp(p); };
            ok = l.tcp->listen(QHostAddress(c["host"].toString("127.0.0.1")), c["port"].toInt());
        }
        g_lst[id] = l;
        return QJsonObject{{"ok", ok}};
    }
    if (op == "unlisten") { Lst l = g_lst[id]; if (l.tcp) l.tcp->close(); if (l.ws) l.ws->close(); return QJsonValue(); }
    if (op == "relay") {
        g_real = true; Relay *r = g_relay[id]; if (!r) r = g_relay[id] = new Relay;
        r->toHost = QHostAddress(c["host"].toString()); r->toPort = c["to"].toInt();
        return QJsonObject{{"ok", r->isListening() || r->listen(r->toHost, c["port"].toInt())}};
    }
    if (op == "relaydown") { if (g_relay[id]) g_relay[id]->close(); return QJsonValue(); }
    if (op == "relaycut") { if (g_relay[id]) g_relay[id]->cut(); return QJsonValue(); }
    // ---- library: tunnel server
    if (op == "tps_new") {
        g_real = true;
        TunnelProxySocketServer *s = new TunnelProxySocketServer(QUuid(c["uuid"].toString()), c["name"].toString(), c["ws"].toBool() ? TunnelProxySocketServer::ConnectionTypeWebSocket : TunnelProxySocketServer::ConnectionTypeTcpSocket);
        g_tps[id] = s; if (c["strict"].toBool()) g_strict.insert(id); hookTps(id, s); return QJsonValue();
    }
    if (op == "tps_start") { bool r = g_tps[id]->startServer(QUrl(c["url"].toString())); return QJsonObject{{"ok", r}}; }
    if (op == "tps_stop") { g_tps[id]->stopServer(); return QJsonValue(); }
    if (op == "tps_del") { delete g_tps[id].data(); return QJsonValue(); }
    if (op == "look") {
        // what the objects say about themselves
        QJsonArray out;
        for (auto &x : g_tps) if (TunnelProxySocketServer *s = x.second)
            out << QJsonObject{{"o", x.first}, {"run", s->running()}, {"state", enumKey(TunnelProxySocketServer::staticMetaObject, "State", s->state())}, {"err", (int)s->error()}, {"serr", enumKey(TunnelProxySocketServer::staticMetaObject, "Error", s->serverError())},
                               {"url", s->serverUrl().toString()}, {"srv", QJsonArray{s->remoteProxyServer(), s->remoteProxyServerName(), s->remoteProxyServerVersion(), s->remoteProxyApiVersion()}}};
        for (auto &x : g_trc) if (TunnelProxyRemoteConnection *s = x.second)
            out << QJsonObject{{"o", x.first}, {"run", s->remoteConnected()}, {"state", enumKey(TunnelProxyRemoteConnection::staticMetaObject, "State", s->state())}, {"err", (int)s->error()}, {"serr", ""},
                               {"url", s->serverUrl().toString()}, {"srv", QJsonArray{s->remoteProxyServer(), s->remoteProxyServerName(), s->remoteProxyServerVersion(), s->remoteProxyApiVersion()}}};
        QJsonArray ks;
        for (auto &x : g_socks) if (TunnelProxySocket *k = x.second.s)
            ks << QJsonObject{{"s", x.first}, {"up", k->connected()}, {"a", (int)k->socketAddress()}, {"u", k->clientUuid().toString()}, {"n", k->clientName()}, {"p", k->clientPeerAddress().toString()}};
        return QJsonObject{{"o", out}, {"k", ks}};
    }
    if (op == "hook") {
        foreach (const QString &k, g_hooks.keys()) if (k.section('/', 0, 0) == id.section('/', 0, 0)) g_hooks.remove(k);
        g_hooks[id] = c["ops"].toArray(); return QJsonValue();
    }
    if (id == "@") id = g_hookSock;
    if (op == "sk_write") { TunnelProxySocket *s = g_socks[id].s; if (s) s->writeData(payload(c)); return QJsonObject{{"live", s != nullptr}}; }
    if (op == "sk_disc") { TunnelProxySocket *s = g_socks[id].s; if (s) s->disconnectSocket(); return QJsonObject{{"live", s != nullptr}}; }
    // ---- library: remote connection
    if (op == "trc_new") {
        g_real = true;
        TunnelProxyRemoteConnection *s = new TunnelProxyRemoteConnection(QUuid(c["uuid"].toString()), c["name"].toString(), c["ws"].toBool() ? TunnelProxyRemoteConnection::ConnectionTypeWebSocket : TunnelProxyRemoteConnection::ConnectionTypeTcpSocket);
        g_trc[id] = s; if (c["strict"].toBool()) g_strict.insert(id); hookTrc(id, s); return QJsonValue();
    }
    if (op == "trc_connect") { bool r = g_trc[id]->connectServer(QUrl(c["url"].toString()), QUuid(c["srv"].toString())); return QJsonObject{{"ok", r}}; }
    if (op == "trc_disc") { g_trc[id]->disconnectServer(); return QJsonValue(); }
    if (op == "trc_send") { bool r = g_trc[id]->sendData(payload(c)); return QJsonObject{{"ok", r}}; }
    if (op == "trc_del") { delete g_trc[id].data(); return QJsonValue(); }
    // ---- library: RPC layer on its own
    if (op == "jrc_new") { g_jrc[id] = jrc_create(id, [id](QString what, QJsonValue v) { emitEv(id, what, v); }); return QJsonValue(); }
    if (op == "jrc_call") return QJsonObject{{"call", jrc_call(g_jrc[id], c["m"].toString(), c["arg"].toInt())}};
    if (op == "jrc_data") { foreach (const QJsonValue &v, c["chunks"].toArray()) jrc_data(g_jrc[id], unhex(v.toString())); return QJsonValue(); }
    // ---- monitor client
    if (op == "mon_new") { g_real = true; g_mon[id] = mon_create(c["path"].toString(), [id](int k, QVariantMap d) { emitEv(id, k == 0 ? "up" : k == 1 ? "closed" : "snap", k == 2 ? QJsonValue(QJsonObject::fromVariantMap(d)) : QJsonValue()); }); mon_connect(g_mon[id]); return QJsonValue(); }
    if (op == "mon_refresh") { mon_refresh(g_mon[id], c["all"].toBool()); return QJsonValue(); }
    if (op == "mon_close") { mon_disconnect(g_mon[id]); return QJsonValue(); }
    if (op == "mon_del") { delete g_mon[id].data(); return QJsonValue(); }
    // ---- local socket listener standing in for the monitor server
    if (op == "llisten") {
        g_real = true; QLocalServer::removeServer(c["path"].toString());
        QLocalServer *ls = new QLocalServer; ls->setObjectName(id);
        QObject::connect(ls, &QLocalServer::newConnection, ls, [id, ls]() { while (ls->hasPendingConnections()) { Peer *p = new Peer; p->id = QString("a%1").arg(++g_acc); p->loc = ls->nextPendingConnection(); g_peers[p->id] = p; emitEv(id, "acc", p->id); hookLoc(p); } });
        bool ok = ls->listen(c["path"].toString());
        return QJsonObject{{"ok", ok}};
    }
    return QJsonObject{{"error", "unknown op " + op}};
}

static void resetAll()
{
    g_hooks.clear(); g_hookSockOf.clear(); g_strict.clear();
    for (auto &x : g_jrc) delete x.second.data();
    g_jrc.clear();
    for (auto &x : g_tps) delete x.second.data();
    g_tps.clear(); g_socks.clear(); g_sockId = 0; g_acc = 0; g_sockNames.clear();
    for (auto &x : g_trc) delete x.second.data();
    g_trc.clear();
    for (auto &x : g_mon) delete x.second.data();
    g_mon.clear();
    for (auto &x : g_peers) { Peer *p = x.second; if (!p) continue; p->dead = true; if (p->tcp) p->tcp->abort(); if (p->loc) p->loc->abort(); if (p->ws) p->ws->abort(); }
    quiesce();
    for (auto &x : g_peers) { Peer *p = x.second; if (!p) continue; if (p->tcp) p->tcp->deleteLater(); if (p->loc) p->loc->deleteLater(); if (p->ws) p->ws->deleteLater(); delete p; }
    g_peers.clear();
    for (auto &x : g_lst) { if (x.second.tcp) { x.second.tcp->close(); x.second.tcp->deleteLater(); } if (x.second.ws) { x.second.ws->close(); x.second.ws->deleteLater(); } }
    g_lst.clear();
    for (auto &x : g_relay) if (x.second) { x.second->close(); x.second->cut(); x.second->deleteLater(); }
    g_relay.clear();
    if (Engine::exists()) Engine::instance()->destroy();
    for (int i = 0; i < 2; i++) { delete g_fake[i]; g_fake[i] = nullptr; }
    quiesce();
    g_real = false;
}

int main(int argc, char **argv)
{
    qtHookData[3] = quintptr(+[](QObject *o) { std::lock_guard<std::mutex> l(aliveMutex); alive.insert(o); });
    qtHookData[4] = quintptr(+[](QObject *o) { std::lock_guard<std::mutex> l(aliveMutex); alive.erase(o); });
    qputenv("QT_NO_GLIB", "1");
    signal(SIGPIPE, SIG_IGN);
    static bool verbose = qEnvironmentVariableIsSet("RPX_LOG");
    qInstallMessageHandler([](QtMsgType t, const QMessageLogContext &ctx, const QString &m) { if (verbose || t == QtFatalMsg) fprintf(stderr, "%s: %s\n", ctx.category, qPrintable(m)); });
    QCoreApplication app(argc, argv);
    qRegisterMetaType<remoteproxy::TransportClient *>("TransportClient*");
    if (!verbose && !qEnvironmentVariableIsSet("RPX_DEBUG")) QLoggingCategory::setFilterRules("*.debug=false\n*.info=false\n");
    vclock_settle(300);
    char *line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, stdin)) > 0) {
        QJsonObject c = QJsonDocument::fromJson(QByteArray(line, n)).object();
        QString op = c["op"].toString();
        QJsonValue res;
        if (op == "quit") break;
        if (op == "settle") { g_rounds = c["rounds"].toInt(); g_roundUs = c["us"].toInt(); vclock_settle(c["us"].toInt()); }
        else if (op == "adv") advance(c["ms"].toInt());
        else if (op == "reset") inLoop([]() { resetAll(); });
        else if (op == "par") { inLoop([&]() { foreach (const QJsonValue &v, c["ops"].toArray()) doOne(v.toObject()); }); }
        else inLoop([&]() { res = doOne(c); });
        quiesce();
        QJsonObject out{{"ev", g_log}, {"t", (double)vclock_now_ms()}};
        if (!res.isNull() && !res.isUndefined()) out["r"] = res;
        if (c["st"].toBool() && Engine::exists() && Engine::instance()->tunnelProxyServer()) out["st"] = QJsonObject::fromVariantMap(Engine::instance()->buildMonitorData(true));
        g_log = QJsonArray();
        QByteArray o = QJsonDocument(out).toJson(QJsonDocument::Compact) + "\n";
        fwrite(o.constData(), 1, o.size(), stdout); fflush(stdout);
    }
    g_mute = true;
    fflush(stdout);
    _exit(0);
}
