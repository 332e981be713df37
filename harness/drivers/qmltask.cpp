// Conformance driver for specs/QmlTask.tla
#include "vt.h"
#include <QJSEngine>
#include <QPromise>
#include <QQmlComponent>
#include <QQmlEngine>
#include <QCoro/QCoroFuture>
#include <QCoro/QCoroTask>
#include <QCoro/QCoroLazyTask>
#include "qcoroqml.h"
#include "qcoroqmltask.h"

using namespace vt;

namespace {
struct Err : std::runtime_error { using runtime_error::runtime_error; };
struct Custom {
    Q_GADGET
public:
    int n = 0;
};
}
Q_DECLARE_METATYPE(Custom)

namespace {

class Log : public QObject {
    Q_OBJECT
public:
    std::function<void(int, int, QJSValue)> f;
    Q_INVOKABLE void called(int i, int n, QJSValue v) { f(i, n, v); }
    Q_INVOKABLE void drop() { dropAll(); }
    std::function<void()> dropAll;
};

struct QmlSc : Scenario {
    std::unique_ptr<QQmlEngine> engine = std::make_unique<QQmlEngine>();
    std::unique_ptr<QQmlComponent> component;
    Log log;
    QString type;
    Gate gate;
    bool fail = false;
    QPromise<QString> promise;
    std::map<int, std::unique_ptr<QCoro::QmlTask>> hs;
    struct L { QPointer<QObject> o; bool gone = false; int changed = 0; QJSValue js; std::unique_ptr<QObject> binding; };
    std::map<int, L> ls;
    int n;

    explicit QmlSc(const QJsonObject &i) : type(str(i, "type")), n(num(i, "n")) {
        QCoro::Qml::registerTypes();
        log.f = [this](int id, int count, QJSValue v) {
            const auto x = v.toVariant();
            ev(QJsonObject{{S("e"), S("called")}, {S("i"), id}, {S("v"), count == 1 ? code(x) : 8}});
        };
        log.dropAll = [this] { hs.clear(); };
        QQmlEngine::setObjectOwnership(&log, QQmlEngine::CppOwnership);
        engine->globalObject().setProperty(S("log"), engine->newQObject(&log));
    }
    //! 1: the result, 2: the intermediate value, 0: nothing
    int code(const QVariant &v) const {
        if (type == S("void")) return !v.isValid() || v.isNull() ? 1 : 7;
        if (type == S("int")) return v == QVariant(42) ? 1 : 7;
        if (type == S("custom")) return v.canConvert<Custom>() && v.value<Custom>().n == 42 ? 1 : 7;
        return v == QVariant(S("the result")) ? 1 : 7;
    }
    //! what a QML binding to the value shows
    void bind(L &l) {
        if (!engine) return;
        if (!component) {
            component = std::make_unique<QQmlComponent>(engine.get());
            component->setData("import QtQml\nQtObject { property QtObject l; property var v: l ? l.value : 'gone' }", {});
        }
        l.binding.reset(component->createWithInitialProperties({{S("l"), QVariant::fromValue(l.o.data())}}));
        if (!l.binding) ev("error", component->errorString());
    }
    int shown(const L &l) const {
        const int c = code(l, l.o->property("value"));
        if (!l.binding) return c;
        auto v = l.binding->property("v");
        if (v.userType() == qMetaTypeId<QJSValue>()) v = v.value<QJSValue>().toVariant();
        return code(l, v) == c ? c : 55;
    }
    int code(const L &l, const QVariant &v) const {
        if (v == QVariant(S("meanwhile"))) return 2;
        if (v.isNull() && (type != S("void") || l.changed == 0)) return 0;
        return code(v);
    }
    QCoro::Task<QVariant> variantTask(bool done) {
        if (!done) co_await gate;
        if (fail) throw Err("failed");
        co_return QVariant(S("the result"));
    }
    template<typename T> QCoro::Task<T> typedTask(bool done, T v) {
        if (!done) co_await gate;
        if (fail) throw Err("failed");
        co_return v;
    }
    QCoro::Task<> voidTask(bool done) {
        if (!done) co_await gate;
        if (fail) throw Err("failed");
    }
    //! something to await which is no task: an awaiter, or an object which is asked for one
    struct Own {
        QmlSc *s = nullptr;
        bool done = false;
        std::unique_ptr<int> mark;
        explicit Own(QmlSc *x = nullptr, bool d = false) : s(x), done(d), mark(new int(4711)) {}
        Own(Own &&) = default;
        ~Own() { if (mark) *mark = 0; }
        bool await_ready() const { return done; }
        void await_suspend(std::coroutine_handle<> h) { s->gate.h = h; }
        QString await_resume() {
            if (!mark || *mark != 4711) ev("stale");
            if (s->fail) throw Err("failed");
            return S("the result");
        }
    };
    struct OwnOp {
        Own own;
        explicit OwnOp(QmlSc *x = nullptr, bool d = false) : own(x, d) {}
        struct Awaiter {
            Own &o;
            bool await_ready() const { return o.await_ready(); }
            void await_suspend(std::coroutine_handle<> h) { o.await_suspend(h); }
            QString await_resume() { return o.await_resume(); }
        };
        Awaiter operator co_await() { return {own}; }
    };
    QCoro::LazyTask<QString> lazyTask(bool done) {
        if (!done) co_await gate;
        if (fail) throw Err("failed");
        co_return S("the result");
    }
    std::unique_ptr<QCoro::QmlTask> make(bool done) {
        if (type == S("awaiter")) return std::make_unique<QCoro::QmlTask>(Own(this, done));
        if (type == S("awaitable")) return std::make_unique<QCoro::QmlTask>(OwnOp(this, done));
        if (type == S("lazy")) return std::make_unique<QCoro::QmlTask>(lazyTask(done));
        if (type == S("variant")) return std::make_unique<QCoro::QmlTask>(variantTask(done));
        if (type == S("string")) return std::make_unique<QCoro::QmlTask>(typedTask<QString>(done, S("the result")));
        if (type == S("int")) return std::make_unique<QCoro::QmlTask>(typedTask<int>(done, 42));
        if (type == S("custom")) return std::make_unique<QCoro::QmlTask>(typedTask<Custom>(done, Custom{42}));
        if (type == S("void")) return std::make_unique<QCoro::QmlTask>(voidTask(done));
        promise.start();
        if (done) finishFuture();
        return std::make_unique<QCoro::QmlTask>(promise.future());
    }
    void finishFuture() {
        if (fail) promise.setException(std::make_exception_ptr(Err("failed")));
        else promise.addResult(S("the result"));
        promise.finish();
    }
    void expose(int h) {
        engine->globalObject().setProperty(S("task"), engine->toScriptValue(*hs.at(h)));
    }
    void then(int i, const QString &m, int h, bool js) {
        QString body = S("log.called(%1, arguments.length, v);").arg(i);
        if (m == S("nest")) body += S("self.then(function(v) { log.called(%1, arguments.length, v); });").arg(i + 10);
        if (m == S("throw")) body += S("throw new Error('thrown');");
        if (m == S("drop")) body += S("log.drop();");
        if (m == S("nest") || js) expose(h);
        const QString self = m == S("nest") ? S("var self = task; task = null;") : QString();
        if (js) {
            const auto r = engine->evaluate(S("(function() { var t = task; task = null;") + S(m == S("nest") ? "var self = t;" : "") + S("t.then(function(v) {") + body + S("}); })()"));
            if (r.isError()) ev("error", r.toString());
        } else {
            const auto f = engine->evaluate(S("(function() {") + self + S("return function(v) {") + body + S("}; })()"));
            hs.at(h)->then(f);
        }
    }
    void misuse(int h, bool empty, bool js) {
        QCoro::QmlTask none;
        if (js) {
            engine->globalObject().setProperty(S("task"), engine->toScriptValue(empty ? none : *hs.at(h)));
            const auto r = engine->evaluate(empty ? S("(function() { var t = task; task = null; t.then(function(v) { log.called(77, arguments.length, v); }); })()")
                                                  : S("(function() { var t = task; task = null; t.then(undefined); t.then(42); t.then({}); })()"));
            if (r.isError()) ev("error", r.toString());
        } else if (empty) none.then(engine->evaluate(S("(function(v) { log.called(77, arguments.length, v); })")));
        else {
            hs.at(h)->then(QJSValue());
            hs.at(h)->then(QJSValue(42));
            hs.at(h)->then(engine->newObject());
        }
    }
    void awaitNothing(bool js) {
        QCoro::QmlTask none;
        if (js) {
            engine->globalObject().setProperty(S("task"), engine->toScriptValue(none));
            const auto r = engine->evaluate(S("(function() { var t = task; task = null; return t.await('meanwhile').value + t.await().value; })()"));
            if (r.toString() != S("meanwhileundefined")) ev("error", r.toString());
            return;
        }
        for (const auto &v : {QVariant(), QVariant(S("meanwhile"))}) {
            const std::unique_ptr<QObject> o(none.await(v));
            if (!o) ev("error", S("no listener"));
            else if (o->property("value") != v) ev("error", S("wrong value"));
        }
    }
    void await(int i, int iv, int h, bool js) {
        QObject *o;
        auto &l = ls[i];
        if (js) {
            expose(h);
            l.js = engine->evaluate(S("(function() { var t = task; task = null; return t.await(") + S(iv ? "'meanwhile'" : "") + S("); })()"));
            if (l.js.isError()) ev("error", l.js.toString());
            o = l.js.toQObject();
            QQmlEngine::setObjectOwnership(o, QQmlEngine::CppOwnership);
        } else o = iv ? hs.at(h)->await(S("meanwhile")) : hs.at(h)->await();
        l.o = o;
        if (type == S("void") && finished) l.changed = 1;
        bind(l);
        QObject::connect(static_cast<QCoro::QmlTaskListener *>(o), &QCoro::QmlTaskListener::valueChanged, o, [this, i] {
            auto &l = ls[i];
            ++l.changed;
            ev(QJsonObject{{S("e"), S("changed")}, {S("i"), i}, {S("v"), code(l, l.o->property("value"))}});
        });
    }
    bool finished = false;
    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        const int i = num(l, "i"), h = num(l, "h");
        if (a == S("Make")) { finished = flag(l, "done"); hs[1] = make(finished); }
        else if (a == S("Then")) then(i, str(l, "m"), h, str(l, "via") == S("js"));
        else if (a == S("Misuse") && str(l, "how") == S("emptyawait")) awaitNothing(str(l, "via") == S("js"));
        else if (a == S("Misuse")) misuse(h, str(l, "how") == S("empty"), str(l, "via") == S("js"));
        else if (a == S("Await")) await(i, num(l, "iv"), h, str(l, "via") == S("js"));
        else if (a == S("Copy")) {
            const QCoro::QmlTask &from = *hs.at(num(l, "from"));
            const auto how = str(l, "how");
            if (how == S("new")) hs[h] = std::make_unique<QCoro::QmlTask>(from);
            else if (how == S("variant")) hs[h] = std::make_unique<QCoro::QmlTask>(QVariant::fromValue(from).value<QCoro::QmlTask>());
            else {
                if (how == S("assign")) hs[h] = std::make_unique<QCoro::QmlTask>();
                *hs[h] = from;
            }
        }
        else if (a == S("Drop")) hs.erase(h);
        else if (a == S("Forget")) { delete ls[i].o.data(); ls[i].gone = true; }
        else if (a == S("EngineGone")) { for (auto &x : ls) { x.second.js = QJSValue(); x.second.binding.reset(); } component.reset(); engine.reset(); }
        else if (a == S("Finish") || a == S("Fail")) {
            fail = a == S("Fail");
            finished = !fail;
            if (type == S("future")) finishFuture();
            else gate.open();
        }
    }
    QJsonObject obs() override {
        QJsonArray v;
        for (int i = 1; i <= n; ++i) {
            const auto it = ls.find(i);
            v.append(it == ls.end() ? -1 : it->second.gone ? -2 : !it->second.o ? -3 : shown(it->second));
        }
        return {{S("value"), v}};
    }
};

} // namespace

int main(int argc, char **argv) {
    qRegisterMetaType<Custom>();
    return run(argc, argv, [](const QJsonObject &i) { return std::make_unique<QmlSc>(i); });
}
#include "qmltask.moc"
