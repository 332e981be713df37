// Conformance driver for specs/Compose.tla.
#include "vt.h"
#include <QCoro/QCoroFuture>
#include <QCoro/QCoroIODevice>
#include <QCoro/QCoroLazyTask>
#include <QCoro/QCoroSignal>
#include <QCoro/QCoroTask>
#include <QCoro/QCoroTimer>
#include <QIODevice>
#include <QPromise>
#include <QTimer>

using namespace vt;
using namespace std::chrono;

namespace {

constexpr milliseconds Unit{40};
struct Err { int k; };

class Em : public QObject {
    Q_OBJECT
Q_SIGNALS:
    void sig(int v);
};

struct Dev : QIODevice {
    QByteArray in;
    char last = 0;
    Dev() { open(QIODevice::ReadWrite | QIODevice::Unbuffered); }
    bool isSequential() const override { return true; }
    qint64 bytesAvailable() const override { return in.size() + QIODevice::bytesAvailable(); }
    qint64 readData(char *p, qint64 n) override {
        n = qMin<qint64>(n, in.size());
        memcpy(p, in.constData(), n);
        in.remove(0, n);
        return n;
    }
    qint64 writeData(const char *, qint64 n) override { return n; }
    void arrive(int n) {
        while (n-- > 0) in.append(++last);
        Q_EMIT readyRead();
    }
};

struct Sc : Scenario {
    struct Co {
        Dev dev;
        int id = 0, s = 0, freed = 0;
        std::unique_ptr<QCoro::Task<int>> task;
        void over(const char *o, int v) { ev(QJsonObject{{S("k"), id}, {S("s"), s++}, {S("o"), S(o)}, {S("v"), v}}); }
    };
    struct Guard {
        Co *c;
        explicit Guard(Co *x) : c(x) {}
        Guard(Guard &&o) noexcept : c(std::exchange(o.c, nullptr)) {}
        ~Guard() { if (c) ++c->freed; }
    };
    Em em;
    QTimer tick;
    QPromise<int> promise;
    std::vector<std::unique_ptr<Co>> co;

    explicit Sc(const QJsonObject &i) {
        for (int k = 0; k <= num(i, "n"); ++k) { co.push_back(std::make_unique<Co>()); co.back()->id = k; }
        tick.start(Unit * num(i, "period"));
        promise.start();
    }
    //! the same, started when awaited
    static QCoro::LazyTask<int> lazily(Sc *sc, Co *c, QJsonArray ops) { co_return co_await body(sc, c, ops, Guard(nullptr)); }
    static QCoro::Task<int> body(Sc *sc, Co *c, QJsonArray ops, Guard) {
        using Lis = decltype(qCoroSignalListener(&sc->em, &Em::sig));
        std::optional<Lis> lis;
        std::optional<typename std::remove_cvref_t<decltype(std::declval<Lis &>().end())>> it;
        for (const auto &x : ops) {
            const auto op = x.toObject();
            const auto o = str(op, "o");
            const int n = num(op, "n");
            if (o == S("sleep")) {
                co_await QCoro::sleepFor(Unit * n);
                c->over("sleep", 0);
            } else if (o == S("sig") && n == 99) {
                const int v = co_await qCoro(&sc->em, &Em::sig);
                c->over("sig", v);
            } else if (o == S("sig")) {
                const auto v = co_await qCoro(&sc->em, &Em::sig, Unit * n);
                c->over("sig", v.value_or(-1));
            } else if (o == S("tick")) {
                if (c->id % 2) co_await sc->tick;
                else co_await LATER(qCoro(sc->tick), waitForTimeout());
                c->over("tick", 0);
            } else if (o == S("fut")) {
                const int v = co_await sc->promise.future();
                c->over("fut", v);
            } else if (o == S("lis")) {
                lis.emplace(qCoroSignalListener(&sc->em, &Em::sig));
                c->over("lis", 0);
            } else if (o == S("next")) {
                if (!it) {
                    auto b = co_await lis->begin();
                    it.emplace(std::move(b));
                } else {
                    co_await ++*it;
                }
                c->over("next", **it);
            } else if (o == S("read")) {
                QIODevice &d = c->dev;
                auto t = n == 99 ? LATER(qCoro(d), read(1)) : LATER(qCoro(d), read(1, Unit * n));
                const auto b = co_await t;
                c->over("read", b.isEmpty() ? -1 : b.size() > 1 ? -7 : b[0]);
            } else if (o == S("throw")) {
                throw Err{c->id};
            } else {
                int v = 0;
                const bool catches = flag(op, "c");
                const bool call = o == S("call");
                try {
                    if (call) {
                        const auto sub = op.value(S("sub")).toArray();
                        const int form = (c->id + c->s) % 4;
                        if (form == 0) v = co_await body(sc, c, sub, Guard(nullptr));
                        else if (form == 1) v = co_await body(sc, c, sub, Guard(nullptr)).then([](int x) { return x; });
                        else if (form == 2) v = co_await lazily(sc, c, sub);
                        else v = co_await body(sc, c, sub, Guard(nullptr)).then([sc](int x) -> QCoro::Task<int> { co_await QCoro::sleepFor(0ms); co_return x; });
                        v = v == c->id ? 1 : -7;
                    } else {
                        v = co_await *sc->co[1]->task;
                        v = v == 1 ? 1 : -7;
                    }
                } catch (const Err &e) {
                    if (!catches) throw;
                    v = e.k == (call ? e.k : 1) ? -1 : -8;
                }
                c->over(call ? "call" : "task", v);
            }
        }
        co_return c->id;
    }
    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        auto *c = co[num(l, "k")].get();
        if (a == S("Start")) c->task = std::make_unique<QCoro::Task<int>>(body(this, c, l.value(S("p")).toArray(), Guard(c)));
        else if (a == S("Emit")) Q_EMIT em.sig(num(l, "v"));
        else if (a == S("Resolve")) { promise.addResult(7); promise.finish(); }
        else if (a == S("Arrive")) c->dev.arrive(num(l, "n"));
        else if (a == S("Pass")) advance(Unit.count());
        else if (a == S("Drop")) c->task.reset();
    }
    QJsonObject obs() override {
        QJsonArray st, fr;
        for (size_t k = 1; k < co.size(); ++k) {
            st.append(!co[k]->task ? QString() : co[k]->task->isReady() ? S("done") : S("run"));
            fr.append(co[k]->freed);
        }
        return {{S("st"), st}, {S("fr"), fr}};
    }
};

} // namespace

int main(int argc, char **argv) {
    return run(argc, argv, [](const QJsonObject &i) -> std::unique_ptr<Scenario> { return std::make_unique<Sc>(i); });
}

#include "compose.moc"
