// Conformance driver for specs/DBus.tla: a peer-to-peer connection over a unix socket. The
// peer answers when told to; the step ends when the reply has been processed on this side.
#include "vt.h"
#include <QDBusConnection>
#include <QDBusInterface>
#include <QDBusMessage>
#include <QDBusPendingCall>
#include <QDBusPendingReply>
#include <QDBusServer>
#include <QThread>
#include <QTemporaryDir>
#include <QCoro/QCoroDBusPendingCall>
#include <QCoro/QCoroDBusPendingReply>
#include <dlfcn.h>
#include <mutex>
#include <thread>

using namespace vt;

namespace {
using Real = bool (*)(const QDBusPendingCall *);
bool finished(const QDBusPendingCall &c) {
    static const Real real = reinterpret_cast<Real>(dlsym(RTLD_NEXT, "_ZNK16QDBusPendingCall10isFinishedEv"));
    return real(&c);
}
std::function<void()> inBetween;
using Typed = QDBusPendingReply<QString, int>;
}

// what happens between an await's check and its beginning to wait
bool QDBusPendingCall::isFinished() const {
    const bool is = finished(*this);
    if (!is && inBetween) std::exchange(inBetween, {})();
    return is;
}

namespace {

class Peer : public QObject {
    Q_OBJECT
    Q_CLASSINFO("D-Bus Interface", "test.Peer")
public:
    std::mutex m;
    std::map<int, QDBusMessage> calls;
    QDBusConnection conn{S("none")};
public Q_SLOTS:
    QString ask(int id, const QDBusMessage &msg) {
        msg.setDelayedReply(true);
        std::lock_guard g(m);
        calls.insert_or_assign(id, msg);
        return {};
    }
};

struct DBusSc : Scenario {
    QTemporaryDir dir;
    QThread thread;
    Peer *peer = new Peer;
    std::unique_ptr<QDBusServer> server;
    std::optional<QDBusConnection> client;
    std::map<int, QDBusPendingCall> calls;
    std::vector<int> waiting;
    std::vector<QCoro::Task<>> keep;

    template<typename P> static void until(P p) {
        while (!p()) std::this_thread::sleep_for(std::chrono::microseconds(200));
    }
    static void barrier() { QDBusConnection::connectToPeer(S("unix:path=/nonexistent/x"), S("barrier")); QDBusConnection::disconnectFromPeer(S("barrier")); }

    explicit DBusSc(const QJsonObject &i) : waiting(num(i, "n") + 1) {
        if (flag(i, "offline")) return;
        thread.start();
        peer->moveToThread(&thread);
        server.reset(new QDBusServer(S("unix:path=") + dir.path() + S("/s")));
        server->setAnonymousAuthenticationAllowed(true);
        bool have = false;
        QObject::connect(server.get(), &QDBusServer::newConnection, server.get(), [this, &have](const QDBusConnection &c) {
            peer->conn = c;
            peer->conn.registerObject(S("/p"), peer, QDBusConnection::ExportAllSlots);
            have = true;
        });
        client.emplace(QDBusConnection::connectToPeer(server->address(), S("client")));
        until([&] { QCoreApplication::sendPostedEvents(); return have; });
        barrier();
        QCoreApplication::sendPostedEvents(); // lets the peer's connection deliver
    }
    ~DBusSc() override {
        keep.clear();
        thread.quit();
        thread.wait();
    }

    void call(int c, const QString &way) {
        const auto msg = QDBusMessage::createMethodCall({}, S("/p"), S("test.Peer"), S("ask")) << c;
        if (way == S("net")) {
            calls.insert_or_assign(c, client->asyncCall(msg, 1000000));
            Typed expected = calls.at(c); // the call knows what is expected of the reply
            until([&] { std::lock_guard g(peer->m); return peer->calls.count(c) > 0; });
        } else if (way == S("completed")) {
            auto m = QDBusMessage::createMethodCall(S("a.b"), S("/p"), S("test.Peer"), S("ask"));
            calls.insert_or_assign(c, QDBusPendingCall::fromCompletedCall(m.createReply({S("v") + QString::number(c), c})));
        } else if (way == S("failed")) {
            calls.insert_or_assign(c, QDBusPendingCall::fromError(QDBusError(QDBusMessage::createError(S("org.test.E") + QString::number(c), S("failed")))));
        } else {
            calls.insert_or_assign(c, Typed());
        }
    }
    void reply(int c, const QString &o) {
        QDBusMessage m;
        { std::lock_guard g(peer->m); m = peer->calls[c]; }
        if (o == S("ok")) m = m.createReply({S("v") + QString::number(c), c});
        else if (o == S("wrong")) m = m.createReply(QVariant(c));
        else m = m.createErrorReply(S("org.test.E") + QString::number(c), S("failed"));
        peer->conn.send(m);
        until([&] { return finished(calls.at(c)); });
        barrier();
    }
    QString errorOf(int c, const QString &name) {
        if (name == S("org.test.E") + QString::number(c)) return S("error");
        if (name == S("org.freedesktop.DBus.Error.InvalidSignature")) // a local reply has no signature
            return client ? S("wrong") : S("ok");
        if (name == S("org.freedesktop.DBus.Error.NoReply") || name == S("org.freedesktop.DBus.Error.Disconnected")) return client && !client->isConnected() ? S("gone") : S("nocall");
        return name;
    }
    QString result(int c, const QDBusMessage &m) {
        if (m.type() == QDBusMessage::ErrorMessage) return errorOf(c, m.errorName());
        if (m.type() != QDBusMessage::ReplyMessage) return S("nocall");
        const auto a = m.arguments();
        return a.size() == 2 && a[0] == S("v") + QString::number(c) && a[1] == c ? S("ok") : S("garbled");
    }
    QString result(int c, const Typed &r) {
        if (!r.isFinished()) return S("unfinished");
        if (r.isError()) return errorOf(c, r.error().name());
        if (!r.isValid()) return S("nocall");
        return r.value() == S("v") + QString::number(c) && r.argumentAt<1>() == c ? S("ok") : S("garbled");
    }
    void report(int w, int c, const QString &r) {
        waiting[w] = 0;
        ev(QJsonObject{{S("e"), S("done")}, {S("w"), w}, {S("c"), c}, {S("r"), r}});
    }

    static QCoro::Task<> waiter(DBusSc *sc, int w, int c, QString k) {
        sc->waiting[w] = 1;
        const QDBusPendingCall &call = sc->calls.at(c);
        if (k == S("msg")) {
            const auto r = co_await call;
            sc->report(w, c, sc->result(c, r));
        } else if (k == S("msgwait")) {
            const auto r = co_await LATER(qCoro(call), waitForFinished());
            sc->report(w, c, sc->result(c, r));
        } else if (k == S("msgthen")) {
            QString s;
            co_await qCoro(call).waitForFinished().then([&](const QDBusMessage &m) { s = sc->result(c, m); });
            sc->report(w, c, s);
        } else if (k == S("typed")) {
            const Typed typed = call;
            const auto r = co_await typed;
            sc->report(w, c, sc->result(c, r));
        } else {
            const Typed typed = call;
            const auto r = co_await LATER(qCoro(typed), waitForFinished());
            sc->report(w, c, sc->result(c, r));
        }
    }
    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        const int c = num(l, "c");
        if (a == S("Call")) call(c, str(l, "way"));
        else if (a == S("Await")) {
            if (l.contains(S("race"))) inBetween = [this, c, o = str(l, "race")] { reply(c, o); };
            keep.push_back(waiter(this, num(l, "w"), c, str(l, "k")));
            if (inBetween) std::exchange(inBetween, {})(); // never checked: arrives just after
        } else if (a == S("Reply")) reply(c, str(l, "o"));
        else if (a == S("Drop")) {
            const auto name = peer->conn.name();
            peer->conn = QDBusConnection(S("none"));
            QDBusConnection::disconnectFromPeer(name);
            until([&] { for (auto &x : calls) if (!finished(x.second)) return false; return true; });
            barrier();
        }
    }
    QJsonObject obs() override {
        QJsonArray a;
        for (size_t i = 1; i < waiting.size(); ++i) a.append(waiting[i]);
        return {{S("wait"), a}};
    }
};

} // namespace

int main(int argc, char **argv) {
    return run(argc, argv, [](const QJsonObject &i) { return std::make_unique<DBusSc>(i); });
}
#include "dbus.moc"
