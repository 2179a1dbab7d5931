// Hosts objects of the client library. Commands come in on stdin, reports go out on stdout.
#include "common.h"
#include "proxyconnection.h"
#include "proxyjsonrpcclient.h"
#include "jsonreply.h"
#include "tunnelproxy/tunnelproxysocketserver.h"
#include "tunnelproxy/tunnelproxysocket.h"
#include "tunnelproxy/tunnelproxyremoteconnection.h"
#include <QJsonDocument>
#include <QPointer>
#include <QTimer>
#include <dlfcn.h>
#include <netdb.h>
#include <cstring>

// The sandbox has no name service: proxy-127-1-2-3.test is 127.1.2.3 here, nothing else exists below .test
extern "C" int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res)
{
    using F = int (*)(const char *, const char *, const struct addrinfo *, struct addrinfo **);
    static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "getaddrinfo"));
    size_t len = node ? strlen(node) : 0;
    if (len < 5 || strcmp(node + len - 5, ".test"))
        return real(node, service, hints, res);
    if (strncmp(node, "proxy-", 6))
        return EAI_NONAME;
    std::string address(node + 6, len - 11);
    for (char &c : address)
        if (c == '-')
            c = '.';
    struct addrinfo h = *hints;
    h.ai_flags = AI_NUMERICHOST;
    return real(address.c_str(), service, &h, res);
}

using namespace remoteproxyclient;
using namespace hx;

class FakeConnection : public ProxyConnection
{
public:
    int id;
    explicit FakeConnection(int i) : id(i) { }
    ~FakeConnection() override { }
    void sendData(const QByteArray &data) override { out("e jrc " + std::to_string(id) + " sent " + hex(data)); }
    void ignoreSslErrors() override { }
    void ignoreSslErrors(const QList<QSslError> &) override { }
    void connectServer(const QUrl &) override { }
    void disconnectServer() override { }
};

struct Srv {
    QPointer<TunnelProxySocketServer> o;
    std::map<int, QPointer<TunnelProxySocket>> socks;
};
static std::map<int, Srv> s_srv;
static std::map<int, QPointer<TunnelProxyRemoteConnection>> s_rc;
struct Jrc { QPointer<FakeConnection> c; QPointer<JsonRpcClient> j; };
static std::map<int, Jrc> s_jrc;
static int s_nextSock = 1;
static bool s_ignoreSsl = true;

static std::string n(long long v) { return std::to_string(v); }

// What the application does in a slot: the action of the first armed hook for the event, once.
struct Hook { std::string event, action, arg; };
static std::map<int, std::vector<Hook>> s_srvHooks, s_rcHooks;

static bool takeHook(std::map<int, std::vector<Hook>> &all, int id, const std::string &event, Hook *h)
{
    auto &v = all[id];
    for (size_t i = 0; i < v.size(); i++) {
        if (v[i].event == event) {
            *h = v[i];
            v.erase(v.begin() + i);
            return true;
        }
    }
    return false;
}

static void srvHook(int id, const std::string &event, QPointer<TunnelProxySocket> s)
{
    Hook h;
    if (!takeHook(s_srvHooks, id, event, &h)) return;
    auto o = s_srv[id].o;
    out("e srv " + n(id) + " hook " + event + " " + h.action);
    if (h.action == "stop") o->stopServer();
    else if (h.action == "restart") o->startServer(QUrl(QString::fromStdString(h.arg)));
    else if (h.action == "del") o->deleteLater();
    else if (h.action == "write" && s) s->writeData(unhex(h.arg));
    else if (h.action == "kick" && s) s->disconnectSocket();
}

static void rcHook(int id, const std::string &event)
{
    Hook h;
    if (!takeHook(s_rcHooks, id, event, &h)) return;
    auto o = s_rc[id];
    out("e rc " + n(id) + " hook " + event + " " + h.action);
    if (h.action == "disc") o->disconnectServer();
    else if (h.action == "del") o->deleteLater();
    else if (h.action == "send") {
        bool ok = o->sendData(unhex(h.arg));
        out("e rc " + n(id) + " sent " + (ok ? "1" : "0"));
    }
}

static void watchSocket(int id, TunnelProxySocket *s)
{
    int sid = s_nextSock++;
    s_srv[id].socks[sid] = s;
    s->setProperty("sid", sid);
    out("e srv " + n(id) + " conn " + n(sid) + " " + n(s->socketAddress()) + " " + s->clientUuid().toString().toStdString() + " " + hex(s->clientName().toUtf8()) + " "
        + (s->clientPeerAddress().toString().isEmpty() ? std::string("-") : s->clientPeerAddress().toString().toStdString()) + " " + (s->connected() ? "1" : "0"));
    QObject::connect(s, &TunnelProxySocket::dataReceived, s, [sid, id](const QByteArray &d) { out("e sock " + n(id) + " " + n(sid) + " data " + hex(d)); });
    QObject::connect(s, &TunnelProxySocket::connectedChanged, s, [sid, id](bool c) { out("e sock " + n(id) + " " + n(sid) + " connected " + (c ? "1" : "0")); });
    QObject::connect(s, &TunnelProxySocket::disconnected, s, [sid, id, s]() { out("e sock " + n(id) + " " + n(sid) + " disc " + (s->connected() ? "1" : "0")); });
    QObject::connect(s, &TunnelProxySocket::dataReceived, s, [id, s](const QByteArray &) { srvHook(id, "data", s); });
    QObject::connect(s, &TunnelProxySocket::disconnected, s, [id, s]() { srvHook(id, "sockdisc", s); });
    srvHook(id, "conn", s);
}

static void handle(const std::string &cmd, std::istringstream &in)
{
    std::string sub;
    in >> sub;
    int id = 0;
    if (cmd == "ssl") {
        s_ignoreSsl = sub == "1";
        done();
        return;
    }
    in >> id;
    if (cmd == "srv") {
        if (sub == "new") {
            std::string uuid, name, type;
            in >> uuid >> name >> type;
            auto *o = new TunnelProxySocketServer(QUuid(QString::fromStdString(uuid)), QString::fromUtf8(unhex(name)),
                type == "ws" ? TunnelProxySocketServer::ConnectionTypeWebSocket : TunnelProxySocketServer::ConnectionTypeTcpSocket, qApp);
            s_srv[id].o = o;
            QObject::connect(o, &TunnelProxySocketServer::stateChanged, o, [id](TunnelProxySocketServer::State s) { out("e srv " + n(id) + " state " + n(s)); srvHook(id, "state" + n(s), nullptr); });
            QObject::connect(o, &TunnelProxySocketServer::runningChanged, o, [id](bool r) { out("e srv " + n(id) + " running " + (r ? "1" : "0")); srvHook(id, r ? "running1" : "running0", nullptr); });
            QObject::connect(o, &TunnelProxySocketServer::errorOccurred, o, [id](QAbstractSocket::SocketError e) { out("e srv " + n(id) + " err " + n(e)); });
            QObject::connect(o, &TunnelProxySocketServer::serverErrorOccurred, o, [id](TunnelProxySocketServer::Error e) { out("e srv " + n(id) + " srverr " + n(e)); });
            QObject::connect(o, &TunnelProxySocketServer::sslErrors, o, [o, id](const QList<QSslError> &e) { out("e srv " + n(id) + " ssl " + n(e.count())); if (s_ignoreSsl) o->ignoreSslErrors(e); });
            QObject::connect(o, &TunnelProxySocketServer::clientConnected, o, [id](TunnelProxySocket *s) { watchSocket(id, s); });
            QObject::connect(o, &TunnelProxySocketServer::clientDisconnected, o, [id](TunnelProxySocket *s) { out("e srv " + n(id) + " disc " + n(s->property("sid").toInt())); srvHook(id, "disc", s); });
        } else if (sub == "start") {
            std::string url; in >> url;
            bool ok = s_srv[id].o->startServer(QUrl(QString::fromStdString(url)));
            out(std::string("r ") + (ok ? "1" : "0"));
        } else if (sub == "ignore") {
            s_srv[id].o->ignoreSslErrors(QList<QSslError>());
            s_srv[id].o->ignoreSslErrors();
        } else if (sub == "stop") {
            if (s_srv[id].o) s_srv[id].o->stopServer();
        } else if (sub == "del") {
            s_srv[id].o->deleteLater();
        } else if (sub == "state") {
            auto o = s_srv[id].o;
            out("r " + n(o->state()) + " " + (o->running() ? "1" : "0") + " " + n(o->serverError()) + " " + n(o->error()) + " " + hex(o->remoteProxyServer().toUtf8()) + " "
                + hex(o->remoteProxyServerName().toUtf8()) + " " + hex(o->remoteProxyServerVersion().toUtf8()) + " " + hex(o->remoteProxyApiVersion().toUtf8()));
        } else if (sub == "hook") { // srv hook <id> <event> <action> [arg]
            Hook h; in >> h.event >> h.action >> h.arg;
            if (h.event == "clear") s_srvHooks[id].clear(); else s_srvHooks[id].push_back(h);
        } else if (sub == "write" || sub == "kick") {
            int sid; std::string h;
            in >> sid >> h;
            auto s = s_srv[id].socks[sid];
            if (s.isNull()) out("r 0");
            else {
                if (sub == "write") s->writeData(unhex(h)); else s->disconnectSocket();
                out("r 1");
            }
        }
        done();
    } else if (cmd == "rc") {
        if (sub == "new") {
            std::string uuid, name, type;
            in >> uuid >> name >> type;
            auto *o = new TunnelProxyRemoteConnection(QUuid(QString::fromStdString(uuid)), QString::fromUtf8(unhex(name)),
                type == "ws" ? TunnelProxyRemoteConnection::ConnectionTypeWebSocket : TunnelProxyRemoteConnection::ConnectionTypeTcpSocket, qApp);
            s_rc[id] = o;
            QObject::connect(o, &TunnelProxyRemoteConnection::stateChanged, o, [id](TunnelProxyRemoteConnection::State s) { out("e rc " + n(id) + " state " + n(s)); rcHook(id, "state" + n(s)); });
            QObject::connect(o, &TunnelProxyRemoteConnection::remoteConnectedChanged, o, [id, o](bool r) { out("e rc " + n(id) + " remote " + (r ? "1" : "0") + " " + (o->remoteConnected() ? "1" : "0")); rcHook(id, r ? "remote1" : "remote0"); });
            QObject::connect(o, &TunnelProxyRemoteConnection::errorOccurred, o, [id](QAbstractSocket::SocketError e) { out("e rc " + n(id) + " err " + n(e)); });
            QObject::connect(o, &TunnelProxyRemoteConnection::sslErrors, o, [o, id](const QList<QSslError> &e) { out("e rc " + n(id) + " ssl " + n(e.count())); if (s_ignoreSsl) o->ignoreSslErrors(e); });
            QObject::connect(o, &TunnelProxyRemoteConnection::dataReady, o, [id](const QByteArray &d) { out("e rc " + n(id) + " data " + hex(d)); rcHook(id, "data"); });
        } else if (sub == "connect") {
            std::string url, uuid; in >> url >> uuid;
            bool ok = s_rc[id]->connectServer(QUrl(QString::fromStdString(url)), QUuid(QString::fromStdString(uuid)));
            out(std::string("r ") + (ok ? "1" : "0"));
        } else if (sub == "hook") { // rc hook <id> <event> <action> [arg]
            Hook h; in >> h.event >> h.action >> h.arg;
            if (h.event == "clear") s_rcHooks[id].clear(); else s_rcHooks[id].push_back(h);
        } else if (sub == "ignore") {
            s_rc[id]->ignoreSslErrors(QList<QSslError>());
            s_rc[id]->ignoreSslErrors();
        } else if (sub == "disc") {
            s_rc[id]->disconnectServer();
        } else if (sub == "send") {
            std::string h; in >> h;
            bool ok = s_rc[id]->sendData(unhex(h));
            out(std::string("r ") + (ok ? "1" : "0"));
        } else if (sub == "del") {
            s_rc[id]->deleteLater();
        } else if (sub == "state") {
            auto o = s_rc[id];
            out("r " + n(o->state()) + " " + (o->remoteConnected() ? "1" : "0") + " " + n(o->error()) + " " + hex(o->remoteProxyServer().toUtf8()) + " "
                + hex(o->remoteProxyServerName().toUtf8()) + " " + hex(o->remoteProxyServerVersion().toUtf8()) + " " + hex(o->remoteProxyApiVersion().toUtf8()));
        }
        done();
    } else if (cmd == "jrc") {
        if (sub == "new") {
            Jrc j;
            j.c = new FakeConnection(id);
            j.c->setParent(qApp);
            j.j = new JsonRpcClient(j.c, qApp);
            s_jrc[id] = j;
            QObject::connect(j.j, &JsonRpcClient::tunnelProxyClientConnected, j.j, [id](const QString &name, const QUuid &uuid, const QString &peer, quint16 a) {
                out("e jrc " + n(id) + " conn " + n(a) + " " + uuid.toString().toStdString() + " " + hex(name.toUtf8()) + " " + hex(peer.toUtf8()));
            });
            QObject::connect(j.j, &JsonRpcClient::tunnelProxyClientDisonnected, j.j, [id](quint16 a) { out("e jrc " + n(id) + " disc " + n(a)); });
        } else if (sub == "call") { // jrc call <id> <call number> <method> <arg>
            int no; std::string m; long long arg = 0;
            in >> no >> m >> arg;
            JsonRpcClient *j = s_jrc[id].j;
            JsonReply *r = nullptr;
            if (m == "hello") r = j->callHello();
            else if (m == "server") r = j->callRegisterServer(QUuid(0x12345678, 1, 2, 3, 4, 5, 6, 7, 8, 9, arg & 255), QString("s%1").arg(arg));
            else if (m == "client") r = j->callRegisterClient(QUuid(0x22345678, 1, 2, 3, 4, 5, 6, 7, 8, 9, arg & 255), QString("c%1").arg(arg), QUuid(0x32345678, 1, 2, 3, 4, 5, 6, 7, 8, 9, 9));
            else if (m == "disconnect") r = j->callDisconnectClient(arg);
            else if (m == "ping") r = j->callPing(arg);
            QObject::connect(r, &JsonReply::finished, r, [r, id, no]() {
                out("e jrc " + n(id) + " reply " + n(no) + " " + r->nameSpace().toStdString() + "." + r->method().toStdString() + " "
                    + hex(QJsonDocument::fromVariant(r->response()).toJson(QJsonDocument::Compact)));
                r->deleteLater();
            });
        } else if (sub == "feed") {
            std::string h; in >> h;
            s_jrc[id].j->processData(unhex(h));
        } else if (sub == "del") {
            s_jrc[id].j->deleteLater();
            s_jrc[id].c->deleteLater();
        }
        done();
    } else {
        out("error unknown command " + cmd);
        done("fail");
    }
}

static void quietHandler(QtMsgType, const QMessageLogContext &, const QString &) { }

int main(int argc, char **argv)
{
    qputenv("QT_NO_GLIB", "1");
    if (getenv("HX_REALTIME")) g_virtual = false;
    installHooks();
    qInstallMessageHandler(quietHandler);
    int rc;
    {
        QCoreApplication app(argc, argv);
        rc = commandLoop(handle);
    }
    _exit(rc);
}
