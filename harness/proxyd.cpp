// Hosts the real proxy engine. Commands come in on stdin, reports go out on stdout.
#include "common.h"
#include "engine.h"
#include "proxyconfiguration.h"
#include "server/transportinterface.h"
#include "tunnelproxy/tunnelproxyserver.h"
#include "../common/slipdataprocessor.h"
#include <QUuid>
#include <QPointer>
#include <QSslKey>
#include <QJsonDocument>

using namespace remoteproxy;
using namespace hx;

// A transport whose peers are driven by the commands fc/fd/fx and whose chunk boundaries
// are therefore exact.
class FakeTransport : public TransportInterface
{
public:
    explicit FakeTransport(const QString &name, QObject *parent = nullptr) : TransportInterface(parent) { m_serverName = name; }
    ~FakeTransport() override { }

    QHash<QUuid, int> ids;
    QHash<int, QUuid> uuids;
    QSet<int> killed;
    bool syncKill = true;
    bool messages = false;
    bool messageBased() const { return messages; } // overrides the one of the base class, if it has one
    bool isRunning = false;

    void sendData(const QUuid &clientId, const QByteArray &data) override
    {
        int id = ids.value(clientId, -1);
        if (id < 0 || killed.contains(id)) {
            return; // the peer is gone, as with a closed socket
        }
        out("o " + std::to_string(id) + " " + hex(data));
    }
    void killClientConnection(const QUuid &clientId, const QString &reason) override
    {
        Q_UNUSED(reason)
        int id = ids.value(clientId, -1);
        if (id < 0 || killed.contains(id)) return;
        out("k " + std::to_string(id));
        killed.insert(id);
        if (syncKill) finish(id);
    }
    void finish(int id)
    {
        QUuid u = uuids.take(id);
        if (u.isNull()) return;
        ids.remove(u);
        killed.remove(id);
        emit clientDisconnected(u);
    }
    uint connectionsCount() const override { return ids.count(); }
    bool running() const override { return isRunning; }
    bool startServer() override { isRunning = true; return true; }
    bool stopServer() override
    {
        isRunning = false;
        foreach (int id, uuids.keys()) killClientConnection(uuids.value(id), "stop");
        return true;
    }
    void peerConnect(int id, const QHostAddress &addr)
    {
        QUuid u = QUuid::createUuid();
        ids.insert(u, id);
        uuids.insert(id, u);
        emit clientConnected(u, addr);
    }
    void peerData(int id, const QByteArray &d)
    {
        QUuid u = uuids.value(id);
        if (u.isNull() || killed.contains(id)) return;
        emit dataAvailable(u, d);
    }
};

static std::vector<QPointer<FakeTransport>> s_fakes;
static std::map<int, int> s_owner; // connection -> transport

static FakeTransport *fakeOf(int id)
{
    auto it = s_owner.find(id);
    if (it == s_owner.end() || it->second >= (int)s_fakes.size()) return nullptr;
    return s_fakes[it->second];
}

static void quietHandler(QtMsgType, const QMessageLogContext &, const QString &) { }

static void handle(const std::string &cmd, std::istringstream &in)
{
    if (cmd == "fd") {
        int id; std::string h;
        in >> id >> h;
        if (FakeTransport *f = fakeOf(id)) f->peerData(id, unhex(h));
        done();
    } else if (cmd == "fc") {
        int id, t; std::string a;
        in >> id >> t >> a;
        s_owner[id] = t;
        if (FakeTransport *f = fakeOf(id)) f->peerConnect(id, QHostAddress(QString::fromStdString(a)));
        done();
    } else if (cmd == "fx") {
        int id; in >> id;
        if (FakeTransport *f = fakeOf(id)) f->finish(id);
        done();
    } else if (cmd == "fsync") {
        int on; in >> on;
        for (auto &f : s_fakes) if (f) f->syncKill = on;
        done();
    } else if (cmd == "fakes") { // number of fake transports to attach to the running engine
        int n; in >> n;
        for (auto &f : s_fakes) if (f) f->deleteLater();
        s_fakes.clear();
        s_owner.clear();
        for (int i = 0; i < n; i++) {
            FakeTransport *f = new FakeTransport(QString("fake%1").arg(i), qApp);
            f->messages = i == 1; // the second one behaves like a message based transport
            s_fakes.push_back(f);
            Engine::instance()->tunnelProxyServer()->registerTransportInterface(f);
            f->startServer();
        }
        done();
    } else if (cmd == "start") { // start <config file>
        std::string path;
        in >> path;
        ProxyConfiguration *c = new ProxyConfiguration(nullptr);
        if (!c->loadConfiguration(QString::fromStdString(path))) {
            delete c;
            done("fail");
            return;
        }
        Engine::instance()->start(c);
        std::string np;
        in >> np;
        if (np != "nopump") pump();
        done();
    } else if (cmd == "stop") {
        Engine::instance()->stop();
        std::string np;
        in >> np;
        if (np != "nopump") pump();
        done();
    } else if (cmd == "destroy") {
        Engine::instance()->destroy();
        pump();
        done();
    } else if (cmd == "running") {
        out(std::string("running ") + (Engine::exists() && Engine::instance()->running() ? "1" : "0"));
        done();
    } else if (cmd == "mon") {
        int all; in >> all;
        out("mon " + QJsonDocument::fromVariant(Engine::instance()->buildMonitorData(all)).toJson(QJsonDocument::Compact).toStdString());
        done();
    } else if (cmd == "conf") { // conf <file>: what loading it yields
        std::string path;
        in >> path;
        ProxyConfiguration c(nullptr);
        bool ok = c.loadConfiguration(QString::fromStdString(path));
        std::ostringstream s;
        s << "conf {\"ok\":" << (ok ? "true" : "false")
          << ",\"name\":" << jstr(c.serverName())
          << ",\"writeLogs\":" << (c.writeLogFile() ? "true" : "false")
          << ",\"logFile\":" << jstr(c.logFileName())
          << ",\"logEngineEnabled\":" << (c.logEngineEnabled() ? "true" : "false")
          << ",\"monitorSocket\":" << jstr(c.monitorSocketFileName())
          << ",\"jsonRpcTimeout\":" << c.jsonRpcTimeout()
          << ",\"inactiveTimeout\":" << c.inactiveTimeout()
          << ",\"sslEnabled\":" << (c.sslEnabled() ? "true" : "false")
          << ",\"certificate\":" << jstr(c.sslCertificateFileName())
          << ",\"certificateKey\":" << jstr(c.sslCertificateKeyFileName())
          << ",\"certificateChain\":" << jstr(c.sslCertificateChainFileName())
          << ",\"unix\":" << jstr(c.unixSocketFileName())
          << ",\"wsHost\":" << jstr(c.webSocketServerTunnelProxyHost().toString())
          << ",\"wsPort\":" << c.webSocketServerTunnelProxyPort()
          << ",\"tcpHost\":" << jstr(c.tcpServerTunnelProxyHost().toString())
          << ",\"tcpPort\":" << c.tcpServerTunnelProxyPort()
          << ",\"cert\":" << jstr(QString(c.sslConfiguration().localCertificate().digest(QCryptographicHash::Sha256).toHex()))
          << ",\"keyLen\":" << c.sslConfiguration().privateKey().length()
          << ",\"caCount\":" << (c.sslCertificateChainFileName().isEmpty() ? -1 : c.sslConfiguration().caCertificates().count())
          << "}";
        out(s.str());
        done();
    } else if (cmd == "enc") {
        std::string h; in >> h;
        out("v " + hex(SlipDataProcessor::serializeData(unhex(h))));
        done();
    } else if (cmd == "dec") {
        std::string h; in >> h;
        QByteArray r = SlipDataProcessor::deserializeData(unhex(h));
        out("v " + (r.isNull() ? std::string("null") : hex(r)));
        done();
    } else if (cmd == "bld") {
        int a; std::string h; in >> a >> h;
        SlipDataProcessor::Frame f;
        f.socketAddress = a;
        f.data = unhex(h);
        out("v " + hex(SlipDataProcessor::buildFrame(f)));
        done();
    } else if (cmd == "prs") {
        std::string h; in >> h;
        SlipDataProcessor::Frame f = SlipDataProcessor::parseFrame(unhex(h));
        out("v " + std::to_string(f.socketAddress) + " " + hex(f.data));
        done();
    } else {
        out("error unknown command " + cmd);
        done("fail");
    }
}

int main(int argc, char **argv)
{
    qputenv("QT_NO_GLIB", "1");
    if (getenv("HX_REALTIME")) g_virtual = false;
    installHooks();
    qInstallMessageHandler(quietHandler);
    int rc;
    {
        QCoreApplication app(argc, argv);
        app.setApplicationName("nymea-remoteproxy");
        Engine::instance();
        rc = commandLoop(handle);
        if (Engine::exists()) Engine::instance()->destroy();
        pump();
    }
    _exit(rc);
}
