// Conformance driver for specs/Connect.tla.
#include "vt.h"
#include "payload.h"
#include <QCoro/QCoroTask>
#include <QCoro/QCoroLazyTask>
#include <QCoro/QCoroFuture>
#include <QPromise>
#include <QFuture>

using namespace vt;
using namespace pl;

namespace {

struct Ctx : QObject {
    int id;
    std::function<void(int)> hit;
    void noArg() { hit(0); }
    template<typename T> void withArg(T v) { hit(Tr<std::remove_cvref_t<T>>::read(v)); }
};

template<typename T>
struct Sc : Scenario {
    static constexpr bool isVoid = std::is_void_v<T>;
    struct Own;
    struct OwnOp;
    struct Node {
        int id;
        QString out, kind;
        Gate gate;
        std::unique_ptr<QCoro::Task<T>> task;
        std::unique_ptr<QCoro::LazyTask<T>> lazy;
        std::shared_ptr<Own> own;
        std::shared_ptr<OwnOp> ownOp;
        std::unique_ptr<QPromise<T>> promise;
        std::unique_ptr<QFuture<T>> future;
        int freed = 0;
        std::shared_ptr<int> token;
        bool connected = false;
    };
    //! something to await which is no task: an awaiter, or an object which is asked for one
    struct Own {
        Node *n = nullptr;
        std::unique_ptr<int> mark;
        explicit Own(Node *x = nullptr) : n(x), mark(new int(4711)) {}
        Own(Own &&) = default;
        ~Own() { if (mark) *mark = 0; }
        bool await_ready() const { return n->out != S("pause"); }
        void await_suspend(std::coroutine_handle<> h) { n->gate.h = h; }
        T await_resume() {
            if (!mark || *mark != 4711) ev("stale", n->id);
            if (n->out == S("odd")) throw Odd{n->id * 10 + 1};
            if (n->out == S("exc")) throw Err(n->id * 10 + 1);
            if constexpr (!isVoid) return Tr<T>::make(n->id * 10);
        }
    };
    struct OwnOp {
        Own own;
        explicit OwnOp(Node *x = nullptr) : own(x) {}
        struct Awaiter {
            Own &o;
            bool await_ready() const { return o.await_ready(); }
            void await_suspend(std::coroutine_handle<> h) { o.await_suspend(h); }
            T await_resume() { return o.await_resume(); }
        };
        Awaiter operator co_await() { return {own}; }
    };
    std::vector<std::unique_ptr<Node>> nd;
    QObject home; //!< parent of every other context
    std::vector<QPointer<Ctx>> cx;

    explicit Sc(const QJsonObject &i) {
        for (int n = 0; n <= num(i, "n"); ++n) { nd.push_back(std::make_unique<Node>()); nd[n]->id = n; }
        for (int x = 0; x <= num(i, "nx"); ++x) { cx.push_back(new Ctx); cx.back()->id = x; if (x % 2) cx.back()->setParent(&home); }
    }
    struct FrameGuard {
        Node *n;
        FrameGuard(Node *x) : n(x) {}
        FrameGuard(FrameGuard &&o) noexcept : n(o.n) { o.n = nullptr; }
        ~FrameGuard() { if (n) ++n->freed; }
    };
    static QCoro::Task<T> body(Node *n, FrameGuard) {
        if (n->out == S("pause")) co_await n->gate;
        if (n->out == S("odd")) throw Odd{n->id * 10 + 1};
        if (n->out == S("exc")) throw Err(n->id * 10 + 1);
        if constexpr (!isVoid) co_return Tr<T>::make(n->id * 10);
    }
    static QCoro::LazyTask<T> lazyBody(Node *n, FrameGuard) {
        if (n->out == S("pause")) co_await n->gate;
        if (n->out == S("odd")) throw Odd{n->id * 10 + 1};
        if (n->out == S("exc")) throw Err(n->id * 10 + 1);
        if constexpr (!isVoid) co_return Tr<T>::make(n->id * 10);
    }
    static void call(int n, int x, int v) { ev(QJsonObject{{S("e"), S("call")}, {S("n"), n ? QJsonValue(n) : QJsonValue()}, {S("x"), x}, {S("v"), isVoid ? QJsonValue() : QJsonValue(v)}}); }
    void finishPromise(Node *n) {
        if (n->out == S("exc")) n->promise->setException(std::make_exception_ptr(Err(n->id * 10 + 1)));
        else if (n->out == S("odd")) n->promise->setException(std::make_exception_ptr(Odd{n->id * 10 + 1}));
        else if constexpr (!isVoid) n->promise->addResult(Tr<T>::make(n->id * 10));
        n->promise->finish();
    }
    bool lv = false;
    //! connects what is there, or what has been moved from there; the latter is gone when connect() has returned
    template<typename P, typename F> void connect1(P &obj, Ctx *x, F f) {
        if (lv) {
            if constexpr (std::is_invocable_v<F> || std::is_invocable_v<F, Ctx *>) QCoro::connect(*obj, x, std::move(f));
        } else {
            auto o = std::move(obj);
            QCoro::connect(std::move(*o), x, std::move(f));
        }
    }
    template<typename F> void doConnect(Node *n, Ctx *x, F f) {
        if (n->task) connect1(n->task, x, std::move(f));
        else if (n->lazy) connect1(n->lazy, x, std::move(f));
        else if (n->own) connect1(n->own, x, std::move(f));
        else if (n->ownOp) connect1(n->ownOp, x, std::move(f));
        else if constexpr (isVoid || std::is_copy_constructible_v<std::conditional_t<isVoid, int, T>>) connect1(n->future, x, std::move(f));
    }
    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        auto *n = nd[num(l, "n")].get();
        if (a == S("New")) {
            n->out = str(l, "m");
            n->kind = str(l, "k");
            if (n->kind == S("task")) {
                n->task.reset(new QCoro::Task<T>(body(n, FrameGuard(n))));
            } else if (n->kind == S("lazy")) {
                n->lazy.reset(new QCoro::LazyTask<T>(lazyBody(n, FrameGuard(n))));
            } else if (n->kind == S("awaiter")) {
                n->own = std::make_shared<Own>(n);
            } else if (n->kind == S("awaitable")) {
                n->ownOp = std::make_shared<OwnOp>(n);
            } else if (n->kind == S("future")) {
                n->promise.reset(new QPromise<T>);
                n->promise->start();
                n->future.reset(new QFuture<T>(n->promise->future()));
                if (n->out != S("pause")) finishPromise(n);
            }
        } else if (a == S("Connect")) {
            const auto f = str(l, "f");
            Ctx *x = cx[num(l, "x")];
            const int id = n->id, xi = num(l, "x");
            n->connected = true;
            lv = flag(l, "lv");
            auto token = std::make_shared<int>(0);
            n->token = token;
            if (f == S("noarg")) {
                doConnect(n, x, [id, xi, token = std::move(token)] { call(id, xi, 0); });
            } else if (f == S("suicide")) {
                doConnect(n, x, [id, xi, x, token = std::move(token)] { call(id, xi, 0); delete x; });
            } else if (f == S("member")) {
                x->hit = [xi](int v) { call(0, xi, v); };
                n->token.reset();
                doConnect(n, x, &Ctx::noArg);
            } else if (f == S("marg")) {
                x->hit = [xi](int v) { call(0, xi, v); };
                n->token.reset();
                if constexpr (isVoid) doConnect(n, x, &Ctx::noArg);
                else doConnect(n, x, &Ctx::template withArg<T>);
            } else if (f == S("mcref")) {
                x->hit = [xi](int v) { call(0, xi, v); };
                n->token.reset();
                if constexpr (isVoid) doConnect(n, x, &Ctx::noArg);
                else doConnect(n, x, &Ctx::template withArg<const T &>);
            } else if constexpr (!isVoid) {
                if (f == S("arg")) doConnect(n, x, [id, xi, token = std::move(token)](T v) { call(id, xi, Tr<T>::read(v)); });
                else doConnect(n, x, [id, xi, token = std::move(token)](const T &v) { call(id, xi, Tr<T>::read(v)); });
            } else {
                doConnect(n, x, [id, xi, token = std::move(token)] { call(id, xi, 0); });
            }
        } else if (a == S("Finish")) {
            n->out = str(l, "o");
            if (n->promise) finishPromise(n);
            else n->gate.open();
        } else if (a == S("Drop")) {
            n->task.reset();
            n->lazy.reset();
            n->own.reset();
            n->ownOp.reset();
            n->future.reset();
        } else if (a == S("Destroy")) {
            delete cx[num(l, "x")].data();
        }
    }
    QJsonObject obs() override {
        QJsonArray x, fr, cb;
        for (size_t i = 1; i < cx.size(); ++i) x.append(cx[i] ? 1 : 0);
        for (size_t i = 1; i < nd.size(); ++i) {
            fr.append(nd[i]->kind != S("task") && nd[i]->kind != S("lazy") && !nd[i]->kind.isEmpty() ? QJsonValue() : QJsonValue(nd[i]->freed));
            cb.append(nd[i]->connected && !nd[i]->token ? QJsonValue() : QJsonValue(nd[i]->token && nd[i]->token.use_count() > 1 ? 1 : 0));
        }
        return {{S("x"), x}, {S("fr"), fr}, {S("cb"), cb}};
    }
};

} // namespace

int main(int argc, char **argv) {
    return run(argc, argv, [](const QJsonObject &i) -> std::unique_ptr<Scenario> {
        const auto t = str(i, "type");
        if (t == S("void")) return std::make_unique<Sc<void>>(i);
        if (t == S("int")) return std::make_unique<Sc<int>>(i);
        if (t == S("qstring")) return std::make_unique<Sc<QString>>(i);
        if (t == S("counted")) return std::make_unique<Sc<Counted>>(i);
        abort();
    });
}
