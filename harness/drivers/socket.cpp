// Conformance driver for specs/Socket.tla (a socket's connection awaits) and for specs/Read.tla and
// specs/Write.tla on sockets.
#include "fakesocket.h"
#include <QLocalServer>
#include <QDir>
#include <QTemporaryDir>

namespace {

template<typename D>
struct SocketSc : Scenario {
    QPointer<D> s;
    bool ref;
    std::vector<int> waiting;
    std::vector<QCoro::Task<>> keep;

    explicit SocketSc(const QJsonObject &i) : ref(flag(i, "ref")), waiting(num(i, "n") + 1) {
        auto c = i;
        c[S("closed")] = true;
        s = new D(c);
    }
    static std::chrono::milliseconds ms(int to) { return std::chrono::milliseconds(to == 99 ? -1 : to * Unit); }
    static void done(SocketSc *sc, int w, bool r) {
        sc->waiting[w] = 0;
        ev(QJsonObject{{S("e"), S("done")}, {S("w"), w}, {S("r"), r}});
    }
    static QCoro::Task<> waiter(SocketSc *sc, int w, QString k, int to) {
        sc->waiting[w] = 1;
        auto *base = static_cast<typename D::Base *>(sc->s.data());
        bool r = false;
        if (k == S("up")) {
            if (to == Dflt) r = co_await qCoro(base).waitForConnected();
            else if (sc->ref) r = co_await LATER(qCoro(*base), waitForConnected(ms(to)));
            else r = co_await LATER(qCoro(base), waitForConnected(to == 99 ? -1 : to * Unit));
        } else {
            if (to == Dflt) r = co_await qCoro(base).waitForDisconnected();
            else if (sc->ref) r = co_await LATER(qCoro(*base), waitForDisconnected(to == 99 ? -1 : to * Unit));
            else r = co_await LATER(qCoro(base), waitForDisconnected(ms(to)));
        }
        done(sc, w, r);
    }
    static QCoro::Task<> connector(SocketSc *sc, int w, QString how, QString out, int to) {
        sc->waiting[w] = 1;
        bool r = false;
        if constexpr (std::is_same_v<D, FakeAbs>) {
            sc->s->outcome = out;
            const QHostAddress host(QHostAddress::LocalHost);
            const bool name = how == S("name");
            const auto mode = sc->ref ? QIODevice::ReadWrite : QIODevice::ReadOnly | QIODevice::Text;
            const auto protocol = sc->ref ? QAbstractSocket::AnyIPProtocol : QAbstractSocket::IPv6Protocol;
            sc->s->dial = {name ? S("host") : host.toString(), name ? 4711 : 65535};
            sc->s->dialMode = to == Dflt ? QIODevice::ReadWrite : mode;
            sc->s->dialProtocol = name && to != Dflt ? protocol : QAbstractSocket::AnyIPProtocol;
            if (to == Dflt && name) r = co_await qCoro(sc->s.data()).connectToHost(S("host"), 4711);
            else if (to == Dflt) r = co_await qCoro(sc->s.data()).connectToHost(host, 65535);
            else if (name) r = co_await LATER(qCoro(sc->s.data()), connectToHost(S("host"), 4711, mode, protocol, ms(to)));
            else r = co_await LATER(qCoro(sc->s.data()), connectToHost(host, 65535, mode, ms(to)));
        } else if constexpr (requires { sc->s->path(out); }) {
            const QString name = sc->s->path(out);
            const auto mode = sc->ref ? QIODevice::ReadWrite : QIODevice::ReadWrite | QIODevice::Text;
            const bool idle = sc->s->state() == QLocalSocket::UnconnectedState;
            if (how != S("args")) sc->s->setServerName(name);
            auto t = how == S("args") ? qCoro(sc->s.data()).connectToServer(name, mode, ms(to)) : qCoro(sc->s.data()).connectToServer(mode, ms(to));
            if (idle && sc->s->isOpen() && sc->s->openMode().testFlag(QIODevice::Text) == sc->ref) ev("wrong mode", QString::number(sc->s->openMode()));
            if (idle && sc->s->state() == QLocalSocket::ConnectedState && sc->s->serverName() != name) ev("wrong server", sc->s->serverName());
            r = co_await t;
        }
        done(sc, w, r);
    }
    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        const int w = num(l, "w");
        if (a == S("Await")) keep.push_back(waiter(this, w, str(l, "k"), num(l, "to")));
        else if (a == S("Connect")) keep.push_back(connector(this, w, str(l, "how"), str(l, "out"), num(l, "to")));
        else if (a == S("Destroy")) delete s.data();
        else if (a == S("Settle")) {
            if (str(l, "first") == S("t")) timersFirst();
            jump(num(l, "d") * Unit);
        } else if constexpr (requires { s->goLook(); }) {
            if (a == S("Launch")) { if (std::is_same_v<D, FakeAbs>) s->goLook(); else s->goConn(); }
            else if (a == S("Dial")) s->goConn();
            else if (a == S("Up")) s->goUp();
            else if (a == S("Fail")) s->goFail();
            else if (a == S("Closing")) s->goClosing();
            else if (a == S("Hangup")) s->hangup(flag(l, "error"));
        } else {
            if (a == S("Leave")) s->leave(str(l, "how"));
            else if (a == S("Remote")) s->remote();
        }
    }
    QJsonObject obs() override {
        QJsonArray c;
        for (size_t i = 1; i < waiting.size(); ++i) c.append(waiting[i]);
        return {{S("wait"), c}};
    }
};

QTemporaryDir *g_dir = nullptr;

//! a real QLocalSocket and the server it connects to, in a scratch directory
struct RealLocal : QLocalSocket {
    using Base = QLocalSocket;
    QLocalServer server;
    int made = 0, accepted = 0;
    bool remoteGone = false;
    explicit RealLocal(const QJsonObject &) {
        server.listen(QStringLiteral("%1/%2").arg(g_dir->path()).arg(getpid()));
        QObject::connect(this, &QLocalSocket::connected, this, [this] { ++made; });
        QObject::connect(&server, &QLocalServer::newConnection, this, [this] { ++accepted; });
        ioSettle([p = QPointer<RealLocal>(this)] { return !p || !p->remoteGone || p->state() == UnconnectedState; });
    }
    QString path(const QString &out) { return out == S("up") ? server.fullServerName() : g_dir->path() + S("/nobody"); }
    void leave(const QString &how) {
        if (how == S("disconnect")) disconnectFromServer();
        else if (how == S("abort")) abort();
        else close();
    }
    void remote() {
        remoteGone = true;
        QObject::connect(this, &QLocalSocket::disconnected, this, [this] { remoteGone = false; });
        while (accepted < made) if (!server.waitForNewConnection(1000)) ::abort();
        while (server.hasPendingConnections()) delete server.nextPendingConnection();
    }
};

} // namespace

int main(int argc, char **argv) {
    // removed by the parent process, once the scenarios are over
    QTemporaryDir dir(QDir::tempPath() + QStringLiteral("/qcoro-verif-XXXXXX"));
    g_dir = &dir;
    return run(argc, argv, [](const QJsonObject &i) -> std::unique_ptr<Scenario> {
        const bool io = i.contains(S("spec"));
        if (str(i, "sock") == S("real")) return std::make_unique<SocketSc<RealLocal>>(i);
        if (str(i, "sock") == S("local")) {
            if (io) return std::make_unique<IoSc<FakeLocal>>(i);
            return std::make_unique<SocketSc<FakeLocal>>(i);
        }
        if (io) return std::make_unique<IoSc<FakeAbs>>(i);
        return std::make_unique<SocketSc<FakeAbs>>(i);
    });
}
