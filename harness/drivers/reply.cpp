// Conformance driver for specs/Reply.tla, and for specs/Read.tla on a reply.
#include "io.h"
#include <QNetworkReply>
#include <QCoro/QCoroNetworkReply>

namespace {

struct FakeReply : QNetworkReply {
    using Base = QNetworkReply;
    static constexpr bool noDirect = true;
    QByteArray in, out;
    bool err, quiet; // quiet: only finished() tells that the data has ended
    explicit FakeReply(const QJsonObject &i) : err(flag(i, "err")), quiet(flag(i, "quiet")) {
        QIODevice::open(flag(i, "unbuffered") ? QIODevice::ReadOnly | QIODevice::Unbuffered : QIODevice::ReadOnly);
    }
    void abort() override { ::abort(); }
    bool isSequential() const override { return true; }
    qint64 bytesAvailable() const override { return isOpen() ? QIODevice::bytesAvailable() + in.size() : 0; }
    qint64 readData(char *d, qint64 n) override {
        n = std::min<qint64>(n, in.size());
        memcpy(d, in.constData(), n);
        in.remove(0, n);
        return n == 0 && isFinished() ? -1 : n;
    }
    void feed(const QByteArray &b) { in += b; Q_EMIT readyRead(); }
    void flush(int) { ::abort(); }
    void fail() {
        setError(QNetworkReply::ConnectionRefusedError, S("refused"));
        Q_EMIT errorOccurred(QNetworkReply::ConnectionRefusedError);
    }
    void finish() {
        setFinished(true);
        if (!quiet) Q_EMIT readChannelFinished();
        Q_EMIT finished();
    }
    void endStream() {
        if (err) fail();
        finish();
    }
    void closeStream() { close(); }
};

struct ReplySc : Scenario {
    QPointer<FakeReply> r;
    FakeReply *ptr;
    bool ref;
    std::vector<int> waiting;
    std::vector<QCoro::Task<>> keep;

    explicit ReplySc(const QJsonObject &i) : r(new FakeReply(i)), ptr(r.data()), ref(flag(i, "ref")), waiting(num(i, "n") + 1) {}

    static QCoro::Task<> waiter(ReplySc *sc, int w, QString k, int to) {
        sc->waiting[w] = 1;
        QNetworkReply *reply = sc->r.data();
        QJsonValue res;
        if (k == S("wait")) {
            bool b = false;
            if (to == 99) {
                if (sc->ref) b = co_await LATER(qCoro(*reply), waitForFinished());
                else b = co_await LATER(qCoro(reply), waitForFinished(std::chrono::milliseconds{-1}));
            } else if (sc->ref) b = co_await LATER(qCoro(*reply), waitForFinished(std::chrono::milliseconds(to * Unit)));
            else b = co_await LATER(qCoro(reply), waitForFinished(std::chrono::milliseconds(to * Unit)));
            res = b;
        } else {
            QNetworkReply *x = nullptr;
            if (k == S("direct")) x = co_await reply;
            else x = co_await slow(reply);
            res = x == nullptr ? 0 : x == sc->ptr ? 1 : 2;
        }
        sc->waiting[w] = 0;
        ev(QJsonObject{{S("e"), S("done")}, {S("w"), w}, {S("r"), res}});
    }
    static QCoro::Task<QNetworkReply *> slow(QNetworkReply *reply) { co_return co_await reply; }
    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        if (a == S("Await")) keep.push_back(waiter(this, num(l, "w"), str(l, "k"), num(l, "to")));
        else if (a == S("Error")) r->fail();
        else if (a == S("Finish")) r->finish();
        else if (a == S("Feed")) r->feed(QByteArray("x"));
        else if (a == S("Destroy")) delete r.data();
        else if (a == S("Settle")) {
            if (str(l, "first") == S("t")) timersFirst();
            jump(num(l, "d") * Unit);
        }
    }
    QJsonObject obs() override {
        QJsonArray c;
        for (size_t i = 1; i < waiting.size(); ++i) c.append(waiting[i]);
        return {{S("wait"), c}};
    }
};

} // namespace

int main(int argc, char **argv) {
    return run(argc, argv, [](const QJsonObject &i) -> std::unique_ptr<Scenario> {
        if (i.contains(S("spec"))) return std::make_unique<IoSc<FakeReply>>(i);
        return std::make_unique<ReplySc>(i);
    });
}
