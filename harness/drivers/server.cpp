// Conformance driver for specs/Server.tla: a QTcpServer whose connections the specification makes, or real ones.
#include "vt.h"
#include <QHostAddress>
#include <QTcpServer>
#include <QTcpSocket>
#include <QCoro/QCoroTask>
#include <QCoro/QCoroTcpServer>

using namespace vt;

namespace {

constexpr int Unit = 40;

struct FakeServer : QTcpServer {
    QList<QTcpSocket *> queue;
    bool real;
    explicit FakeServer(bool r) : real(r) {}
    bool hasPendingConnections() const override { return real ? QTcpServer::hasPendingConnections() : !queue.isEmpty(); }
    QTcpSocket *nextPendingConnection() override { return real ? QTcpServer::nextPendingConnection() : queue.isEmpty() ? nullptr : queue.takeFirst(); }
};

struct ServerSc : Scenario {
    QPointer<FakeServer> s;
    bool real, ref;
    int arrived = 0, heard = 0, queued = 0;
    std::vector<std::unique_ptr<QTcpSocket>> clients;
    std::vector<int> waiting;
    std::vector<QCoro::Task<>> keep;

    explicit ServerSc(const QJsonObject &i) : s(new FakeServer(flag(i, "real"))), real(flag(i, "real")), ref(flag(i, "ref")), waiting(num(i, "n") + 1) {
        virtualClock();
        if (!s->listen(QHostAddress(QHostAddress::LocalHost))) abort();
        if (real) {
            QObject::connect(s.data(), &QTcpServer::newConnection, s.data(), [this] { ++heard; });
            ioSettle([this] { return heard == arrived; });
        }
    }
    int id(QTcpSocket *c) {
        if (!c) return 0;
        --queued;
        if (!real) return c->property("id").toInt();
        for (size_t k = 0; k < clients.size(); ++k)
            if (clients[k]->localPort() == c->peerPort()) return int(k) + 1;
        return -1;
    }
    static QCoro::Task<> waiter(ServerSc *sc, int w, int to) {
        sc->waiting[w] = 1;
        QTcpSocket *r = nullptr;
        if (to == Dflt) r = co_await qCoro(*sc->s).waitForNewConnection();
        else if (sc->ref) r = co_await LATER(qCoro(*sc->s), waitForNewConnection(std::chrono::milliseconds(to == 99 ? -1 : to * Unit)));
        else r = co_await LATER(qCoro(static_cast<QTcpServer *>(sc->s.data())), waitForNewConnection(to == 99 ? -1 : to * Unit));
        sc->waiting[w] = 0;
        ev(QJsonObject{{S("e"), S("done")}, {S("w"), w}, {S("r"), sc->id(r)}});
    }
    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        if (a == S("Await")) keep.push_back(waiter(this, num(l, "w"), num(l, "to")));
        else if (a == S("Arrive")) {
            for (int n = num(l, "n"); n > 0; --n) {
                ++arrived;
                ++queued;
                auto *c = new QTcpSocket(real ? nullptr : s.data());
                if (real) {
                    clients.emplace_back(c);
                    c->connectToHost(QHostAddress(QHostAddress::LocalHost), s->serverPort());
                    continue;
                }
                c->setProperty("id", arrived);
                s->queue.append(c);
                Q_EMIT s->newConnection();
            }
        } else if (a == S("Steal")) ev(QJsonObject{{S("e"), S("took")}, {S("r"), id(s->nextPendingConnection())}});
        else if (a == S("Close")) {
            s->close();
            s->queue.clear();
            queued = 0;
        } else if (a == S("Listen")) { if (!s->listen(QHostAddress(QHostAddress::LocalHost))) abort(); }
        else if (a == S("Destroy")) { delete s.data(); queued = 0; }
        else if (a == S("Settle")) {
            if (str(l, "first") == S("t")) timersFirst();
            jump(num(l, "d") * Unit);
        }
    }
    QJsonObject obs() override {
        QJsonArray c;
        for (size_t i = 1; i < waiting.size(); ++i) c.append(waiting[i]);
        return {{S("wait"), c}, {S("q"), queued}};
    }
};

} // namespace

int main(int argc, char **argv) {
    return run(argc, argv, [](const QJsonObject &i) -> std::unique_ptr<Scenario> { return std::make_unique<ServerSc>(i); });
}
