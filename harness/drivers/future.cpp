// Conformance driver for specs/Future.tla.
#include "vt.h"
#include "payload.h"
#include <QFuture>
#include <QPromise>
#include <QCoro/QCoroTask>
#include <QCoro/QCoroFuture>
#include <thread>

using namespace vt;

namespace {

template<typename T>
struct FutureSc : Scenario {
    static constexpr bool isVoid = std::is_void_v<T>, copyable = isVoid || std::is_copy_constructible_v<T>;
    std::optional<QPromise<T>> promise;
    QFuture<T> future;
    int added = 0, exc;
    bool thr;
    std::vector<int> waiting;
    std::vector<QCoro::Task<>> keep;

    explicit FutureSc(const QJsonObject &i) : exc(num(i, "exc")), thr(flag(i, "thr")), waiting(num(i, "n") + 1) {
        promise.emplace();
        future = promise->future();
        if constexpr (copyable) {
            if (flag(i, "cont")) {
                if constexpr (isVoid) future = promise->future().then([]{});
                else future = promise->future().then([](T v) { return v; });
            }
        }
        promise->start();
    }
    static void done(FutureSc *sc, int w, QString r) {
        sc->waiting[w] = 0;
        ev(QJsonObject{{S("e"), S("done")}, {S("w"), w}, {S("r"), r}});
    }
    template<typename V>
    static QString val(const V &v) {
        const int x = pl::Tr<V>::read(v);
        return x == 1 ? S("first") : S("value %1").arg(x);
    }
    static QCoro::Task<> waiter(FutureSc *sc, int w, QString k) {
        sc->waiting[w] = 1;
        QString r;
        try {
            if constexpr (isVoid) {
                if (k == S("direct")) co_await sc->future;
                else if (k == S("result")) co_await LATER(qCoro(sc->future), result());
                else co_await LATER(qCoro(sc->future), waitForFinished());
                r = S("void");
            } else {
                if constexpr (copyable) {
                    if (k == S("direct")) r = val<T>(co_await sc->future);
                    else if (k == S("result")) r = val<T>(co_await LATER(qCoro(sc->future), result()));
                    else if (k == S("wait")) r = val<T>(co_await LATER(qCoro(sc->future), waitForFinished()));
                }
                if (k == S("take")) r = val<T>(co_await LATER(qCoro(sc->future), takeResult()));
            }
        } catch (...) { r = pl::currentId() == 5 ? S("exc") : S("another exception"); }
        done(sc, w, r);
    }
    template<typename F>
    void elsewhere(F f) {
        if (thr) std::thread(f).join();
        else f();
    }
    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        const int w = num(l, "w");
        if (a == S("Await")) keep.push_back(waiter(this, w, str(l, "k")));
        else if (a == S("Add")) {
            ++added;
            if constexpr (!isVoid) elsewhere([this] { promise->addResult(pl::Tr<T>::make(added)); });
        } else if (a == S("Throw")) elsewhere([this] {
            promise->setException(exc ? std::make_exception_ptr(pl::Odd{5}) : std::make_exception_ptr(pl::Err(5)));
        });
        else if (a == S("Cancel")) future.cancel();
        else if (a == S("Finish")) elsewhere([this, h = str(l, "how")] {
            if (h == S("finish")) promise->finish();
            else promise.reset();
        });
    }
    QJsonObject obs() override {
        QJsonArray c;
        for (size_t i = 1; i < waiting.size(); ++i) c.append(waiting[i]);
        int kept = 0;
        if constexpr (!isVoid && copyable) {
            if (future.isCanceled()) return {{S("wait"), c}, {S("kept"), QJsonValue()}};
            if (future.isFinished() && future.isValid() && future.resultCount() > 0) {
                try { kept = val<T>(future.result()) == S("first"); } catch (...) {}
            }
            return {{S("wait"), c}, {S("kept"), kept}};
        } else
            return {{S("wait"), c}, {S("kept"), QJsonValue()}};
    }
};

} // namespace

int main(int argc, char **argv) {
    return run(argc, argv, [](const QJsonObject &i) -> std::unique_ptr<Scenario> {
        const auto t = str(i, "type");
        if (t == S("void")) return std::make_unique<FutureSc<void>>(i);
        if (t == S("string")) return std::make_unique<FutureSc<QString>>(i);
        if (t == S("moveonly")) return std::make_unique<FutureSc<pl::MoveOnly>>(i);
        if (t == S("counted")) return std::make_unique<FutureSc<pl::Counted>>(i);
        return std::make_unique<FutureSc<int>>(i);
    });
}
