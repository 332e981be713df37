// Conformance driver for specs/WaitFor.tla.
#include "vt.h"
#include "payload.h"
#include <QCoro/QCoroTask>
#include <QCoro/QCoroLazyTask>
#include <QTimer>

using namespace vt;
using namespace pl;

namespace {

template<typename T>
struct Sc : Scenario {
    static constexpr bool isVoid = std::is_void_v<T>;
    struct Node {
        int id;
        QString kind, out;
        Gate gate;
        std::unique_ptr<QCoro::Task<T>> task;
        std::unique_ptr<QCoro::LazyTask<T>> lazy;
    };
    //! an awaitable that is not a Task
    struct Custom {
        Node &n;
        bool await_ready() const noexcept { return n.out != S("pause"); }
        void await_suspend(std::coroutine_handle<> h) noexcept { n.gate.h = h; }
        T await_resume() { return finish(&n); }
    };
    std::vector<std::unique_ptr<Node>> nd;
    int depth = 0;
    QTimer timer;

    explicit Sc(const QJsonObject &i) {
        for (int n = 0; n <= num(i, "n"); ++n) { nd.push_back(std::make_unique<Node>()); nd[n]->id = n; }
        timer.setSingleShot(true);
        timer.setInterval(50);
        QObject::connect(&timer, &QTimer::timeout, &timer, [] { ev(QJsonObject{{S("e"), S("timer")}}); });
    }
    static T finish(Node *n) {
        if (n->out == S("odd")) throw Odd{n->id * 10 + 1};
        if (n->out == S("exc")) throw Err(n->id * 10 + 1);
        if constexpr (!isVoid) return Tr<T>::make(n->id * 10);
    }
    template<typename R>
    static R body(Node *n) {
        if (n->out == S("pause")) co_await n->gate;
        co_return finish(n);
    }
    void ret(int n, const QString &r, QJsonValue v) {
        ev(QJsonObject{{S("e"), S("ret")}, {S("n"), n}, {S("r"), r}, {S("v"), v}});
    }
    template<typename F> void call(Node *n, F &&f) {
        ++depth;
        try {
            if constexpr (isVoid) { f(); --depth; ret(n->id, S("val"), QJsonValue()); }
            else { auto r = f(); --depth; ret(n->id, S("val"), Tr<T>::read(r)); }
        } catch (const Odd &o) { --depth; ret(n->id, S("odd"), o.id); }
        catch (...) { --depth; ret(n->id, S("exc"), currentId()); }
    }
    void wait(Node *n) {
        if (n->kind == S("lref")) call(n, [&]() -> T { return QCoro::waitFor(*n->task); });
        else if (n->kind == S("rref")) call(n, [&]() -> T { return QCoro::waitFor(std::move(*n->task)); });
        else if (n->kind == S("lazy")) call(n, [&]() -> T { return QCoro::waitFor(*n->lazy); });
        else call(n, [&]() -> T { return QCoro::waitFor(Custom{*n}); });
    }
    static QCoro::Task<> chain(Sc *sc, Node *n, Node *m) {
        try { co_await *n->task; } catch (...) {}
        ev(QJsonObject{{S("e"), S("chain")}, {S("m"), m->id}});
        sc->wait(m);
    }
    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        auto *n = nd[num(l, "n")].get();
        if (a == S("New")) {
            n->kind = str(l, "k");
            n->out = str(l, "m");
            if (n->kind == S("lazy")) n->lazy.reset(new QCoro::LazyTask<T>(body<QCoro::LazyTask<T>>(n)));
            else if (n->kind != S("cust")) n->task.reset(new QCoro::Task<T>(body<QCoro::Task<T>>(n)));
        } else if (a == S("Wait")) {
            wait(n);
        } else if (a == S("Chain")) {
            chain(this, n, nd[num(l, "m")].get());
        } else if (a == S("Finish")) {
            n->out = str(l, "out");
            n->gate.open();
        } else if (a == S("Post")) {
            QMetaObject::invokeMethod(&timer, [] { ev(QJsonObject{{S("e"), S("posted")}}); }, Qt::QueuedConnection);
        } else if (a == S("Tick")) {
            timer.start();
            advance(50);
        }
    }
    QJsonObject obs() override { return {{S("depth"), depth}}; }
};

} // namespace

int main(int argc, char **argv) {
    return run(argc, argv, [](const QJsonObject &i) -> std::unique_ptr<Scenario> {
        const auto t = str(i, "type");
        if (t == S("void")) return std::make_unique<Sc<void>>(i);
        if (t == S("int")) return std::make_unique<Sc<int>>(i);
        if (t == S("qstring")) return std::make_unique<Sc<QString>>(i);
        if (t == S("nodefault")) return std::make_unique<Sc<NoDefault>>(i);
        if (t == S("moveonly")) return std::make_unique<Sc<MoveOnly>>(i);
        abort();
    });
}
