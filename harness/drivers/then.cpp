// Conformance driver for specs/Then.tla.
#include "vt.h"
#include "payload.h"
#include <functional>
#include <QCoro/QCoroTask>

using namespace vt;
using namespace pl;

namespace {

void log(const char *e, int n) { ev(QJsonObject{{S("e"), S(e)}, {S("n"), n}}); }
void log(const char *e, int n, QJsonValue v) { ev(QJsonObject{{S("e"), S(e)}, {S("n"), n}, {S("v"), v}}); }

template<typename T>
struct Sc : Scenario {
    static constexpr bool isVoid = std::is_void_v<T>;
    struct Node {
        int id;
        std::unique_ptr<QCoro::Task<T>> task;
        Gate gate;
        QString out;
        int freed = 0;
        std::shared_ptr<int> token; // held by the continuation's callback
        QString cb, err;
    };
    std::vector<std::unique_ptr<Node>> nd;
    QString arg;

    explicit Sc(const QJsonObject &i) {
        for (int n = 0; n <= num(i, "n"); ++n) { nd.push_back(std::make_unique<Node>()); nd[n]->id = n; }
        arg = str(i, "arg");
    }
    struct FrameGuard {
        Node *n;
        FrameGuard(Node *x) : n(x) {}
        FrameGuard(FrameGuard &&o) noexcept : n(o.n) { o.n = nullptr; }
        ~FrameGuard() { if (n) ++n->freed; }
    };
    struct End { int n; ~End() { log("end", n); } };

    static QCoro::Task<T> base(Node *n, FrameGuard) {
        if (n->out == S("pause")) co_await n->gate;
        End end{n->id};
        if (n->out == S("odd")) throw Odd{n->id * 10 + 1};
        if (n->out == S("exc")) throw Err(n->id * 10 + 1);
        if constexpr (!isVoid) co_return Tr<T>::make(n->id * 10);
    }
    //! the task a callback returns
    static QCoro::Task<T> inner(Node *n) {
        if (n->cb == S("task")) co_await n->gate;
        if (n->cb == S("taskthr") || n->out == S("exc")) throw Err(n->id * 10 + 1);
        if (n->out == S("odd")) throw Odd{n->id * 10 + 1};
        if constexpr (!isVoid) co_return Tr<T>::make(n->id * 10);
    }
    static T plain(Node *n) {
        if (n->cb == S("thr")) throw Err(n->id * 10 + 1);
        if constexpr (!isVoid) return Tr<T>::make(n->id * 10);
    }
    template<typename R>
    struct Both {
        Node *n;
        std::shared_ptr<int> token;
        R result() const {
            if constexpr (std::is_same_v<R, T>) return plain(n);
            else return inner(n);
        }
        template<typename X = T>
        R operator()(X x) const { log("cb", n->id, Tr<X>::read(x)); return result(); }
        R operator()() const { log("cb", n->id, -1); return result(); }
    };
    template<typename Tk>
    void attach(Node *n, Tk &&src) {
        const bool async = n->cb.startsWith(S("task"));
        auto token = std::make_shared<int>(1);
        n->token = token;
        auto fin = [&](auto &&cb) {
            if (n->err == S("none")) {
                n->task = std::make_unique<QCoro::Task<T>>(std::forward<Tk>(src).then(std::forward<decltype(cb)>(cb)));
            } else {
                auto err = [n, token](const std::exception &e) {
                    auto *x = dynamic_cast<const Err *>(&e);
                    log("err", n->id, x ? x->id : -1);
                    if (n->err == S("thr")) throw Err(n->id * 10 + 2);
                };
                n->task = std::make_unique<QCoro::Task<T>>(std::forward<Tk>(src).then(std::forward<decltype(cb)>(cb), err));
            }
        };
        if constexpr (isVoid) {
            if (async) fin([n, token]() -> QCoro::Task<T> { log("cb", n->id, QJsonValue()); return inner(n); });
            else fin([n, token]() -> T { log("cb", n->id, QJsonValue()); return plain(n); });
        } else {
            if (arg == S("none")) {
                if (async) fin([n, token]() -> QCoro::Task<T> { log("cb", n->id, QJsonValue()); return inner(n); });
                else fin([n, token]() -> T { log("cb", n->id, QJsonValue()); return plain(n); });
            } else if (arg == S("value")) {
                if (async) fin([n, token](T x) -> QCoro::Task<T> { log("cb", n->id, Tr<T>::read(x)); return inner(n); });
                else fin([n, token](T x) -> T { log("cb", n->id, Tr<T>::read(x)); return plain(n); });
            } else if (arg == S("both")) {
                // could do without the value, but is given it
                if (async) fin(Both<QCoro::Task<T>>{n, token});
                else fin(Both<T>{n, token});
            } else if (arg == S("auto")) {
                if (async) fin([n, token](auto x) -> QCoro::Task<T> { log("cb", n->id, Tr<T>::read(x)); return inner(n); });
                else fin(std::function<T(T)>([n, token](auto &&x) -> T { log("cb", n->id, Tr<T>::read(x)); return plain(n); }));
            } else {
                if (async) {
                    auto f = [n, token](const T &x) mutable -> QCoro::Task<T> { log("cb", n->id, Tr<T>::read(x)); return inner(n); };
                    fin(f);
                } else {
                    auto f = [n, token](T &&x) mutable -> T { log("cb", n->id, Tr<T>::read(x)); return plain(n); };
                    fin(std::move(f));
                }
            }
        }
    }

    static QCoro::Task<> observer(Sc *sc, Node *n) {
        try {
            if constexpr (isVoid) {
                co_await *n->task;
                log("got", n->id, QJsonValue());
            } else {
                auto r = co_await *n->task;
                log("got", n->id, Tr<T>::read(r));
            }
        } catch (...) { log("exc", n->id, currentId()); }
    }

    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        auto *n = nd[num(l, "n")].get();
        if (a == S("New")) {
            n->out = str(l, "m");
            n->task = std::make_unique<QCoro::Task<T>>(base(n, FrameGuard(n)));
        } else if (a == S("Then")) {
            auto *s = nd[num(l, "s")].get();
            n->cb = str(l, "cb");
            n->err = str(l, "err");
            if (str(l, "form") == S("l")) attach(n, *s->task);
            else { auto t = std::move(s->task); attach(n, std::move(*t)); }
        } else if (a == S("Finish")) {
            n->out = str(l, "out");
            n->gate.open();
        } else if (a == S("Await")) {
            observer(this, n);
        } else if (a == S("Drop")) {
            n->task.reset();
        }
    }
    QJsonObject obs() override {
        QJsonArray rd, fr, cb;
        for (size_t i = 1; i < nd.size(); ++i) {
            rd.append(!nd[i]->task ? S("none") : nd[i]->task->isReady() ? S("ready") : S("busy"));
            fr.append(nd[i]->freed);
            cb.append(nd[i]->token && nd[i]->token.use_count() > 1 ? 1 : 0);
        }
        return {{S("rd"), rd}, {S("fr"), fr}, {S("cb"), cb}};
    }
};

} // namespace

int main(int argc, char **argv) {
    return run(argc, argv, [](const QJsonObject &i) -> std::unique_ptr<Scenario> {
        const auto t = str(i, "type");
        if (t == S("void")) return std::make_unique<Sc<void>>(i);
        if (t == S("int")) return std::make_unique<Sc<int>>(i);
        if (t == S("qstring")) return std::make_unique<Sc<QString>>(i);
        if (t == S("counted")) return std::make_unique<Sc<Counted>>(i);
        if (t == S("moveonly")) return std::make_unique<Sc<MoveOnly>>(i);
        abort();
    });
}
