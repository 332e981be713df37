// Conformance driver for specs/Lazy.tla.
#include "vt.h"
#include "payload.h"
#include <QCoro/QCoroTask>
#include <QCoro/QCoroLazyTask>

using namespace vt;
using namespace pl;

namespace {

void log(const char *e, int n) { ev(QJsonObject{{S("e"), S(e)}, {S("n"), n}}); }
void log(const char *e, int n, QJsonValue v) { ev(QJsonObject{{S("e"), S(e)}, {S("n"), n}, {S("v"), v}}); }

template<typename T>
struct Sc : Scenario {
    static constexpr bool isVoid = std::is_void_v<T>;
    struct Node {
        int id;
        std::unique_ptr<QCoro::LazyTask<T>> lazy;
        std::unique_ptr<QCoro::Task<T>> eager;
        Gate gate;
        QString out;
        int freed = 0;
        QString cb, err;
    };
    std::vector<std::unique_ptr<Node>> nd;
    QString arg;

    explicit Sc(const QJsonObject &i) {
        for (int n = 0; n <= num(i, "n"); ++n) { nd.push_back(std::make_unique<Node>()); nd[n]->id = n; }
        arg = str(i, "arg");
    }
    struct FrameGuard {
        Node *n;
        FrameGuard(Node *x) : n(x) {}
        FrameGuard(FrameGuard &&o) noexcept : n(o.n) { o.n = nullptr; }
        ~FrameGuard() { if (n) ++n->freed; }
    };
    struct End { int n; ~End() { log("end", n); } };

    static QCoro::LazyTask<T> base(Node *n, FrameGuard) {
        log("begin", n->id);
        if (n->out == S("pause")) co_await n->gate;
        End end{n->id};
        if (n->out == S("odd")) throw Odd{n->id * 10 + 1};
        if (n->out == S("exc")) throw Err(n->id * 10 + 1);
        if constexpr (!isVoid) co_return Tr<T>::make(n->id * 10);
    }
    //! the task a callback returns
    template<typename R>
    static R inner(Node *n) {
        if (n->cb != S("lazyval")) co_await n->gate;
        if (n->out == S("exc")) throw Err(n->id * 10 + 1);
        if (n->out == S("odd")) throw Odd{n->id * 10 + 1};
        if constexpr (!isVoid) co_return Tr<T>::make(n->id * 10);
    }
    static T plain(Node *n) {
        if (n->cb == S("thr")) throw Err(n->id * 10 + 1);
        if constexpr (!isVoid) return Tr<T>::make(n->id * 10);
    }
    void attach(Node *n, std::unique_ptr<QCoro::LazyTask<T>> &src, bool lvalue) {
        auto fin = [&](auto &cb) {
            auto put = [&](auto &&mk) {
                using R = std::remove_cvref_t<decltype(mk())>;
                if constexpr (std::is_same_v<R, QCoro::Task<T>>) n->eager.reset(new R(mk()));
                else n->lazy.reset(new R(mk()));
            };
            auto err = [n](const std::exception &e) {
                auto *x = dynamic_cast<const Err *>(&e);
                log("err", n->id, x ? x->id : -1);
            };
            if (lvalue) {
                if (n->err == S("none")) put([&] { return src->then(cb); });
                else put([&] { return src->then(cb, err); });
            } else {
                auto s = std::move(src);
                if (n->err == S("none")) put([&] { return std::move(*s).then(std::move(cb)); });
                else put([&] { return std::move(*s).then(std::move(cb), err); });
            }
        };
        auto all = [&](auto rec) {
            if (n->cb == S("eager")) {
                auto f = [n, rec](auto &&...x) -> QCoro::Task<T> { rec(n, x...); return inner<QCoro::Task<T>>(n); };
                wrap<QCoro::Task<T>>(n, f, fin);
            } else if (n->cb.startsWith(S("lazy"))) {
                auto f = [n, rec](auto &&...x) -> QCoro::LazyTask<T> { rec(n, x...); return inner<QCoro::LazyTask<T>>(n); };
                wrap<QCoro::LazyTask<T>>(n, f, fin);
            } else {
                auto f = [n, rec](auto &&...x) -> T { rec(n, x...); return plain(n); };
                wrap<T>(n, f, fin);
            }
        };
        all([](Node *n, auto &...x) {
            if constexpr (sizeof...(x) == 1) log("cb", n->id, (Tr<T>::read(x), ...));
            else log("cb", n->id, QJsonValue());
        });
    }
    //! gives the callback the parameter form asked for
    template<typename R, typename F, typename Fin>
    void wrap(Node *, F f, Fin &fin) {
        if constexpr (isVoid) { auto g = [f]() -> R { return f(); }; fin(g); }
        else if (arg == S("none")) { auto g = [f]() -> R { return f(); }; fin(g); }
        else if (arg == S("value")) { auto g = [f](T x) -> R { return f(x); }; fin(g); }
        else { auto g = [f](const T &x) -> R { return f(x); }; fin(g); }
    }
    template<typename Fn> static void dummy(Fn &&) {}

    template<typename Tk>
    static QCoro::Task<> observer(Node *n, Tk &task) {
        try {
            if constexpr (isVoid) {
                co_await task;
                log("got", n->id, QJsonValue());
            } else {
                auto r = co_await task;
                log("got", n->id, Tr<T>::read(r));
            }
        } catch (...) { log("exc", n->id, currentId()); }
    }

    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        auto *n = nd[num(l, "n")].get();
        if (a == S("New")) {
            n->out = str(l, "m");
            n->lazy.reset(new QCoro::LazyTask<T>(base(n, FrameGuard(n))));
        } else if (a == S("Then")) {
            auto *s = nd[num(l, "s")].get();
            n->cb = str(l, "cb");
            n->err = str(l, "err");
            attach(n, s->lazy, str(l, "form") == S("l"));
        } else if (a == S("Finish")) {
            n->out = str(l, "out");
            n->gate.open();
        } else if (a == S("Await")) {
            if (n->lazy) observer(n, *n->lazy); else observer(n, *n->eager);
        } else if (a == S("Move")) {
            const auto how = str(l, "how");
            if (how == S("new")) {
                auto from = std::move(n->lazy);
                n->lazy.reset(new QCoro::LazyTask<T>(std::move(*from)));
            } else {
                auto *d = nd[num(l, "d")].get();
                *d->lazy = std::move(*n->lazy);
                if (d != n) n->lazy = std::move(d->lazy);
            }
        } else if (a == S("Drop")) {
            n->lazy.reset();
            n->eager.reset();
        }
    }
    QJsonObject obs() override {
        QJsonArray rd, fr;
        for (size_t i = 1; i < nd.size(); ++i) {
            auto &n = *nd[i];
            rd.append(!n.lazy && !n.eager ? S("none") : (n.lazy ? n.lazy->isReady() : n.eager->isReady()) ? S("ready") : S("busy"));
            fr.append(n.freed);
        }
        return {{S("rd"), rd}, {S("fr"), fr}};
    }
};

} // namespace

int main(int argc, char **argv) {
    return run(argc, argv, [](const QJsonObject &i) -> std::unique_ptr<Scenario> {
        const auto t = str(i, "type");
        if (t == S("void")) return std::make_unique<Sc<void>>(i);
        if (t == S("int")) return std::make_unique<Sc<int>>(i);
        if (t == S("qstring")) return std::make_unique<Sc<QString>>(i);
        if (t == S("counted")) return std::make_unique<Sc<Counted>>(i);
        if (t == S("moveonly")) return std::make_unique<Sc<MoveOnly>>(i);
        abort();
    });
}
