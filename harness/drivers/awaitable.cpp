// Conformance driver for specs/Awaitable.tla.
#include "vt.h"
#include <QCoro/QCoroTask>
#include <QCoro/QCoroLazyTask>
#include <QCoro/QCoroAsyncGenerator>

using namespace vt;

namespace {

struct Err { QString where; };
int cell = 0;

struct Cfg {
    int i = 0;
    QString rd, su, out;
    std::coroutine_handle<> h; // suspended
    std::map<int, Cfg> *all = nullptr;
    const void *self = nullptr;
    void log(const char *e) const { ev(QJsonObject{{S("e"), S(e)}, {S("i"), i}}); }
    void log(const char *e, const QString &v) const { ev(QJsonObject{{S("e"), S(e)}, {S("i"), i}, {S("v"), v}}); }
    bool ready() {
        log("ready");
        if (rd == S("throws")) throw Err{S("ready")};
        return rd == S("yes");
    }
    void suspend(std::coroutine_handle<> c) {
        log("suspend");
        if (su == S("throws")) throw Err{S("suspend")};
        if (su != S("false") && su != S("self")) h = c;
    }
    std::coroutine_handle<> other(std::coroutine_handle<> c) {
        if (su == S("self")) return c;
        if (su == S("other")) for (auto &x : *all) if (x.first != i && x.second.h) return std::exchange(x.second.h, nullptr);
        return std::noop_coroutine();
    }
    void resume() {
        log("resume");
        if (out == S("exc")) throw Err{S("resume")};
    }
};

// Su: what await_suspend() returns; R: what await_resume() returns
template<typename Su, typename R>
struct Awaiter {
    Cfg *c;
    bool await_ready() const { return c->ready(); }
    Su await_suspend(std::coroutine_handle<> h) const {
        c->suspend(h);
        if constexpr (std::is_same_v<Su, bool>) return c->su == S("true");
        else if constexpr (!std::is_void_v<Su>) return c->other(h);
    }
    R await_resume() const {
        c->resume();
        if constexpr (std::is_reference_v<R>) return cell;
        else if constexpr (!std::is_void_v<R>) return R(41 + 1);
    }
};

//! something which has to stay what and where it is
struct Object {
    Cfg *c;
    explicit Object(Cfg *c) : c(c) {}
    Object(const Object &o) : c(o.c) { c->log("copied"); }
    Object(Object &&o) : c(o.c) { c->log("moved"); }
    ~Object() { c->log("gone"); }
};
template<typename Su, typename R>
struct Methods : Object {
    using Object::Object;
    bool await_ready() const { return Awaiter<Su, R>{c}.await_ready(); }
    Su await_suspend(std::coroutine_handle<> h) const { return Awaiter<Su, R>{c}.await_suspend(h); }
    R await_resume() const { return Awaiter<Su, R>{c}.await_resume(); }
};
template<typename Su, typename R>
struct Member : Object {
    using Object::Object;
    Awaiter<Su, R> operator co_await() & { c->log("op", S("lvalue")); return {c}; }
    Awaiter<Su, R> operator co_await() const & { c->log("op", S("const")); return {c}; }
    Awaiter<Su, R> operator co_await() && { c->log("op", S("rvalue")); return {c}; }
};
template<typename Su, typename R>
struct Free : Object { using Object::Object; };
template<typename Su, typename R> Awaiter<Su, R> operator co_await(Free<Su, R> &x) { x.c->log("op", S("lvalue")); return {x.c}; }
template<typename Su, typename R> Awaiter<Su, R> operator co_await(const Free<Su, R> &x) { x.c->log("op", S("const")); return {x.c}; }
template<typename Su, typename R> Awaiter<Su, R> operator co_await(Free<Su, R> &&x) { x.c->log("op", S("rvalue")); return {x.c}; }

//! trivially copyable: doesn't notice being copied, but where it is
struct PlainObject {
    Cfg *c;
    explicit PlainObject(Cfg *c) : c(c) { c->self = this; }
    Cfg *here() const { if (c->self != this) c->log("copied"); return c; }
};
template<typename Su, typename R>
struct Plain : PlainObject {
    using PlainObject::PlainObject;
    bool await_ready() { return Awaiter<Su, R>{here()}.await_ready(); }
    bool await_ready() const { return Awaiter<Su, R>{here()}.await_ready(); }
    Su await_suspend(std::coroutine_handle<> h) const { return Awaiter<Su, R>{here()}.await_suspend(h); }
    R await_resume() const { return Awaiter<Su, R>{here()}.await_resume(); }
};
template<typename Su, typename R>
struct PlainOp : PlainObject {
    using PlainObject::PlainObject;
    Awaiter<Su, R> operator co_await() & { here()->log("op", S("lvalue")); return {c}; }
    Awaiter<Su, R> operator co_await() const & { here()->log("op", S("const")); return {c}; }
    Awaiter<Su, R> operator co_await() && { here()->log("op", S("rvalue")); return {c}; }
};

template<typename R, typename V>
void got(Cfg *c, int &v) {
    if constexpr (std::is_reference_v<R>) c->log("got", std::is_same_v<V, int &> && &v == &cell ? S("ref") : S("another object"));
    else c->log("got", v == 42 ? S("val") : S("another value"));
}
#define AWAIT(what) \
    try { \
        if constexpr (std::is_void_v<R>) { co_await what; c->log("got", S("none")); } \
        else { auto &&r = co_await what; got<R, decltype(r)>(c, r); } \
    } catch (const Err &e) { c->log("exc", e.where); }

template<typename T, typename A, typename R>
T body(Cfg *c, QString cat) {
    if (cat == S("temp")) {
        AWAIT(A(c))
    } else {
        A a(c);
        if (cat == S("lvalue")) { AWAIT(a) }
        else if (cat == S("const")) { const A &k = a; AWAIT(k) }
        else { AWAIT(std::move(a)) }
    }
    if constexpr (std::is_same_v<T, QCoro::AsyncGenerator<int>>) co_yield 7;
    else co_return 7;
}

QCoro::Task<> consume(Cfg *c, QCoro::AsyncGenerator<int> g) {
    int n = 0;
    QCORO_FOREACH(int v, g) n += v == 7;
    if (n != 1) c->log("lost");
}

struct Sc : Scenario {
    std::map<int, Cfg> cs;
    std::map<int, std::function<bool()>> done;
    std::vector<QCoro::Task<>> keep;
    QString type;
    int n;
    explicit Sc(const QJsonObject &i) : type(str(i, "type")), n(num(i, "n")) {}

    template<typename T, typename A, typename R>
    void start(Cfg *c, const QString &cat) {
        if constexpr (std::is_same_v<T, QCoro::AsyncGenerator<int>>) {
            auto p = std::make_shared<QCoro::Task<>>(consume(c, body<T, A, R>(c, cat)));
            done[c->i] = [p] { return p->isReady(); };
        } else {
        std::shared_ptr<T> p(new T(body<T, A, R>(c, cat)));
        if (type == S("lazy")) {
            auto run = [](std::shared_ptr<T> p) -> QCoro::Task<> { co_await *p; };
            keep.push_back(run(p));
        }
        done[c->i] = [p] { return p->isReady(); };
        }
    }
    template<typename T, typename Su, typename R>
    void byKind(Cfg *c, const QJsonObject &l) {
        const auto k = str(l, "kind"), cat = str(l, "cat");
        if (k == S("methods")) start<T, Methods<Su, R>, R>(c, cat);
        else if (k == S("member")) start<T, Member<Su, R>, R>(c, cat);
        else if (k == S("plain")) start<T, Plain<Su, R>, R>(c, cat);
        else if (k == S("plainop")) start<T, PlainOp<Su, R>, R>(c, cat);
        else start<T, Free<Su, R>, R>(c, cat);
    }
    template<typename T, typename Su>
    void byOut(Cfg *c, const QJsonObject &l) {
        if (c->out == S("ref")) byKind<T, Su, int &>(c, l);
        else if (c->out == S("none")) byKind<T, Su, void>(c, l);
        else byKind<T, Su, int>(c, l);
    }
    template<typename T>
    void bySusp(Cfg *c, const QJsonObject &l) {
        if (c->su == S("void") || c->su == S("throws")) byOut<T, void>(c, l);
        else if (c->su == S("true") || c->su == S("false")) byOut<T, bool>(c, l);
        else byOut<T, std::coroutine_handle<>>(c, l);
    }
    void step(const QJsonObject &l) override {
        const int i = num(l, "i");
        if (str(l, "a") == S("Resume")) {
            std::exchange(cs[i].h, nullptr).resume();
            return;
        }
        cs[i] = Cfg{i, str(l, "rd"), str(l, "su"), str(l, "out"), {}, &cs};
        if (type == S("lazy")) bySusp<QCoro::LazyTask<int>>(&cs[i], l);
        else if (type == S("agen")) bySusp<QCoro::AsyncGenerator<int>>(&cs[i], l);
        else bySusp<QCoro::Task<int>>(&cs[i], l);
    }
    QJsonObject obs() override {
        QJsonArray a;
        for (int i = 1; i <= n; ++i) {
            const auto it = done.find(i);
            a.append(it == done.end() ? S("none") : it->second() ? S("done") : S("wait"));
        }
        return {{S("st"), a}};
    }
};

} // namespace

int main(int argc, char **argv) {
    return run(argc, argv, [](const QJsonObject &i) { return std::make_unique<Sc>(i); });
}
