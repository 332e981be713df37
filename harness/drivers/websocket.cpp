// Conformance driver for specs/WsOpen.tla, specs/WsStream.tla and (web socket servers) specs/Server.tla.
// The specification plays the network: the QWebSocket and QWebSocketServer functions which ask about it
// or talk to it are replaced below.
#include "vt.h"
#include <QNetworkRequest>
#include <QUrl>
#include <QWebSocket>
#include <QWebSocketServer>
#include <QCoro/QCoroTask>
#include <QCoro/QCoroWebSocket>
#include <QCoro/QCoroWebSocketServer>

using namespace vt;

namespace {

constexpr int Unit = 40;

struct Net {
    QAbstractSocket::SocketState state = QAbstractSocket::UnconnectedState;
    bool refuses = false;
    int opens = 0;
    QList<QByteArray> pings;
    bool listening = true;
    QList<QWebSocket *> queue;
};
Net *g_net = nullptr;

void setState(QWebSocket *s, QAbstractSocket::SocketState st) {
    g_net->state = st;
    Q_EMIT s->stateChanged(st);
}
void opened(QWebSocket *s, const QUrl &url) {
    if (url != QUrl(S("ws://example/path"))) abort();
    ++g_net->opens;
    if (g_net->refuses) Q_EMIT s->error(QAbstractSocket::ConnectionRefusedError);
    else if (g_net->state == QAbstractSocket::UnconnectedState) {
        setState(s, QAbstractSocket::HostLookupState);
        setState(s, QAbstractSocket::ConnectingState);
    }
}

} // namespace

QAbstractSocket::SocketState QWebSocket::state() const { return g_net->state; }
bool QWebSocket::isValid() const { return g_net->state == QAbstractSocket::ConnectedState; }
void QWebSocket::open(const QUrl &url) { opened(this, url); }
void QWebSocket::open(const QNetworkRequest &request) { opened(this, request.url()); }
void QWebSocket::ping(const QByteArray &payload) { g_net->pings.append(payload.left(125)); }
bool QWebSocketServer::isListening() const { return g_net->listening; }
bool QWebSocketServer::hasPendingConnections() const { return !g_net->queue.isEmpty(); }

namespace {

QUrl url() { return QUrl(S("ws://example/path")); }
QByteArray payload(int p) { return p == 0 ? QByteArray() : p == 3 ? QByteArray(200, 'x') : QByteArray("payload") + char('0' + p); }
std::chrono::milliseconds ms(int to) { return std::chrono::milliseconds(to == 99 ? -1 : to * Unit); }

struct OpenSc : Scenario {
    QWebSocket s;
    bool ref;
    std::vector<int> waiting;
    std::vector<QCoro::Task<>> keep;
    explicit OpenSc(const QJsonObject &i) : ref(flag(i, "ref")), waiting(num(i, "n") + 1) {
        g_net->state = flag(i, "up") ? QAbstractSocket::ConnectedState : QAbstractSocket::UnconnectedState;
    }
    static quint64 elapsed(int n) { return n == 2 ? 5000000000ull : n; }
    static void done(OpenSc *sc, int w, const QJsonValue &r) {
        sc->waiting[w] = 0;
        ev(QJsonObject{{S("e"), S("done")}, {S("w"), w}, {S("r"), r}});
    }
    static QCoro::Task<> opener(OpenSc *sc, int w, QString how, int to) {
        sc->waiting[w] = 1;
        bool r = false;
        if (how == S("url")) {
            const QUrl u = url();
            if (to == 99 && sc->ref) r = co_await LATER(qCoro(sc->s), open(u));
            else r = co_await LATER(qCoro(&sc->s), open(u, ms(to)));
        } else {
            const QNetworkRequest req(url());
            if (to == 99 && !sc->ref) r = co_await LATER(qCoro(&sc->s), open(req));
            else r = co_await LATER(qCoro(sc->s), open(req, ms(to)));
        }
        done(sc, w, r);
    }
    static QCoro::Task<> pinger(OpenSc *sc, int w, int p, int to) {
        sc->waiting[w] = 1;
        std::optional<std::chrono::milliseconds> r;
        const int n = g_net->pings.size();
        auto t = to == 99 && sc->ref ? qCoro(sc->s).ping(payload(p)) : qCoro(&sc->s).ping(payload(p), ms(to));
        if (g_net->state == QAbstractSocket::ConnectedState && (g_net->pings.size() != n + 1 || g_net->pings.last() != payload(p).left(125))) abort();
        r = co_await t;
        done(sc, w, r ? QJsonValue(r->count() == elapsed(2) ? 2 : int(r->count())) : QJsonValue(-1));
    }
    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        if (a == S("Open")) {
            g_net->refuses = flag(l, "fails");
            keep.push_back(opener(this, num(l, "w"), str(l, "how"), num(l, "to")));
            g_net->refuses = false;
        } else if (a == S("Ping")) keep.push_back(pinger(this, num(l, "w"), num(l, "p"), num(l, "to")));
        else if (a == S("Pong")) Q_EMIT s.pong(elapsed(num(l, "ms")), payload(num(l, "p")).left(125));
        else if (a == S("Up")) {
            setState(&s, QAbstractSocket::ConnectedState);
            Q_EMIT s.connected();
        } else if (a == S("Fail")) {
            setState(&s, QAbstractSocket::UnconnectedState);
            if (flag(l, "error")) Q_EMIT s.error(QAbstractSocket::ConnectionRefusedError);
            Q_EMIT s.disconnected();
        } else if (a == S("Refuse")) Q_EMIT s.error(QAbstractSocket::ConnectionRefusedError);
        else if (a == S("Closing")) setState(&s, QAbstractSocket::ClosingState);
        else if (a == S("Hangup")) {
            if (g_net->state != QAbstractSocket::ClosingState) setState(&s, QAbstractSocket::ClosingState);
            setState(&s, QAbstractSocket::UnconnectedState);
            Q_EMIT s.disconnected();
        } else if (a == S("Settle")) {
            if (str(l, "first") == S("t")) timersFirst();
            jump(num(l, "d") * Unit);
        }
    }
    QJsonObject obs() override {
        QJsonArray c;
        for (size_t i = 1; i < waiting.size(); ++i) c.append(waiting[i]);
        return {{S("wait"), c}};
    }
};

// what is received: an empty one, one with a NUL and what isn't ASCII, one that is long
QByteArray content(int n) {
    return n == 2 ? QByteArray("") : n == 3 ? QByteArray("3\0\xc3\xa9\xe2\x82\xac", 7) : n == 4 ? QByteArray(70000, 'x') : "a message long enough to be allocated " + QByteArray::number(n);
}
int contentId(const QByteArray &v) {
    for (int n = 1; n < 300; ++n) if (v == content(n)) return n;
    return -99;
}
bool isLast(int n) { return n % 2 == 0; }
int frameId(const QByteArray &v, bool last) { const int n = contentId(v); return last == isLast(n) ? n : -n; }

struct TextMsg {
    static auto make(QWebSocket *s, int to) { return to == 99 ? qCoro(s).textMessages() : qCoro(*s).textMessages(ms(to)); }
    static void fire(QWebSocket *s, int n) { Q_EMIT s->textMessageReceived(QString::fromUtf8(content(n))); }
    static int read(const QString &v) { return contentId(v.toUtf8()); }
};
struct BinMsg {
    static auto make(QWebSocket *s, int to) { return to == 99 ? qCoro(*s).binaryMessages() : qCoro(s).binaryMessages(ms(to)); }
    static void fire(QWebSocket *s, int n) { Q_EMIT s->binaryMessageReceived(content(n)); }
    static int read(const QByteArray &v) { return contentId(v); }
};
struct TextFrame {
    static auto make(QWebSocket *s, int to) { return to == 99 ? qCoro(s).textFrames() : qCoro(*s).textFrames(ms(to)); }
    static void fire(QWebSocket *s, int n) { Q_EMIT s->textFrameReceived(QString::fromUtf8(content(n)), isLast(n)); }
    static int read(const std::tuple<QString, bool> &v) { return frameId(std::get<0>(v).toUtf8(), std::get<1>(v)); }
};
struct BinFrame {
    static auto make(QWebSocket *s, int to) { return to == 99 ? qCoro(*s).binaryFrames() : qCoro(s).binaryFrames(ms(to)); }
    static void fire(QWebSocket *s, int n) { Q_EMIT s->binaryFrameReceived(content(n), isLast(n)); }
    static int read(const std::tuple<QByteArray, bool> &v) { return frameId(std::get<0>(v), std::get<1>(v)); }
};

template<typename K>
struct StreamSc : Scenario {
    QWebSocket s;
    int received = 0;
    struct Lis {
        Gate gate;
        bool waiting = false, ended = false, autom = false;
        QJsonArray seen;
        std::optional<decltype(K::make(nullptr, 0))> gen;
        QCoro::Task<> task;
    };
    std::vector<std::unique_ptr<Lis>> ls;
    explicit StreamSc(const QJsonObject &i) : ls(num(i, "n") + 1) { g_net->state = QAbstractSocket::ConnectedState; }
    void receive() {
        K::fire(&s, ++received);
        // other kinds of what is received are not for these streams
        if constexpr (!std::is_same_v<K, TextMsg>) TextMsg::fire(&s, 777);
        if constexpr (!std::is_same_v<K, BinMsg>) BinMsg::fire(&s, 777);
        if constexpr (!std::is_same_v<K, TextFrame>) TextFrame::fire(&s, 777);
        if constexpr (!std::is_same_v<K, BinFrame>) BinFrame::fire(&s, 777);
        Q_EMIT s.pong(1, QByteArray());
    }
    static QCoro::Task<> consume(Lis *me, int id) {
        co_await me->gate;
        me->waiting = true;
        auto it = co_await me->gen->begin();
        while (it != me->gen->end()) {
            me->waiting = false;
            ev(QJsonObject{{S("e"), S("elem")}, {S("l"), id}, {S("v"), K::read(*it)}});
            me->seen.append(K::read(*it));
            if (!me->autom) co_await me->gate;
            me->waiting = true;
            co_await ++it;
        }
        me->waiting = false;
        me->ended = true;
        ev(QJsonObject{{S("e"), S("end")}, {S("l"), id}});
    }
    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        const int id = num(l, "l");
        if (a == S("Listen")) {
            auto p = std::make_unique<Lis>();
            p->gen.emplace(K::make(&s, num(l, "to")));
            p->autom = str(l, "mode") == S("auto");
            p->task = consume(p.get(), id);
            ls[id] = std::move(p);
        } else if (a == S("Ask")) ls[id]->gate.open();
        else if (a == S("Drop")) ls[id]->gen.reset();
        else if (a == S("Emit")) {
            for (int n = num(l, "k"); n > 0; --n) receive();
        } else if (a == S("Down")) {
            setState(&s, QAbstractSocket::ClosingState);
            setState(&s, QAbstractSocket::UnconnectedState);
            Q_EMIT s.disconnected();
        } else if (a == S("Up")) {
            setState(&s, QAbstractSocket::ConnectedState);
            Q_EMIT s.connected();
        } else if (a == S("Settle")) {
            if (str(l, "first") == S("t")) timersFirst();
            jump(num(l, "d") * Unit);
        }
    }
    QJsonObject obs() override {
        QJsonArray c, q;
        for (size_t i = 1; i < ls.size(); ++i) q.append(ls[i] ? ls[i]->seen : QJsonArray());
        for (size_t i = 1; i < ls.size(); ++i) c.append(!ls[i] ? S("none") : ls[i]->ended ? S("ended") : ls[i]->waiting ? S("wait") : S("busy"));
        return {{S("l"), c}, {S("seen"), q}};
    }
};

struct FakeServer : QWebSocketServer {
    FakeServer() : QWebSocketServer(S("server"), NonSecureMode) {}
    QWebSocket *nextPendingConnection() override { return g_net->queue.isEmpty() ? nullptr : g_net->queue.takeFirst(); }
};

struct ServerSc : Scenario {
    QPointer<FakeServer> s = new FakeServer;
    bool ref;
    int arrived = 0, queued = 0;
    std::vector<std::unique_ptr<QWebSocket>> sockets;
    std::vector<int> waiting;
    std::vector<QCoro::Task<>> keep;

    explicit ServerSc(const QJsonObject &i) : ref(flag(i, "ref")), waiting(num(i, "n") + 1) { virtualClock(); }
    int id(QWebSocket *c) {
        if (!c) return 0;
        --queued;
        return c->property("id").toInt();
    }
    static QCoro::Task<> waiter(ServerSc *sc, int w, int to) {
        sc->waiting[w] = 1;
        QWebSocket *r = nullptr;
        if (to == 99 && sc->ref) r = co_await LATER(qCoro(*sc->s), nextPendingConnection());
        else r = co_await LATER(qCoro(static_cast<QWebSocketServer *>(sc->s.data())), nextPendingConnection(ms(to)));
        sc->waiting[w] = 0;
        ev(QJsonObject{{S("e"), S("done")}, {S("w"), w}, {S("r"), sc->id(r)}});
    }
    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        if (a == S("Await")) keep.push_back(waiter(this, num(l, "w"), num(l, "to")));
        else if (a == S("Arrive")) {
            for (int n = num(l, "n"); n > 0; --n) {
                ++arrived;
                ++queued;
                sockets.push_back(std::make_unique<QWebSocket>());
                sockets.back()->setProperty("id", arrived);
                g_net->queue.append(sockets.back().get());
                Q_EMIT s->newConnection();
            }
        } else if (a == S("Steal")) ev(QJsonObject{{S("e"), S("took")}, {S("r"), id(s->nextPendingConnection())}});
        else if (a == S("Close")) {
            g_net->listening = false;
            g_net->queue.clear();
            queued = 0;
            Q_EMIT s->closed();
        } else if (a == S("Listen")) g_net->listening = true;
        else if (a == S("Destroy")) {
            g_net->queue.clear();
            queued = 0;
            delete s.data();
        } else if (a == S("Settle")) {
            if (str(l, "first") == S("t")) timersFirst();
            jump(num(l, "d") * Unit);
        }
    }
    QJsonObject obs() override {
        QJsonArray c;
        for (size_t i = 1; i < waiting.size(); ++i) c.append(waiting[i]);
        return {{S("wait"), c}, {S("q"), queued}};
    }
};

} // namespace

int main(int argc, char **argv) {
    g_net = new Net;
    return run(argc, argv, [](const QJsonObject &i) -> std::unique_ptr<Scenario> {
        const auto k = str(i, "kind");
        if (k == S("server")) return std::make_unique<ServerSc>(i);
        if (k == S("text")) return std::make_unique<StreamSc<TextMsg>>(i);
        if (k == S("binary")) return std::make_unique<StreamSc<BinMsg>>(i);
        if (k == S("textframes")) return std::make_unique<StreamSc<TextFrame>>(i);
        if (k == S("binaryframes")) return std::make_unique<StreamSc<BinFrame>>(i);
        return std::make_unique<OpenSc>(i);
    });
}
