// Conformance driver for specs/Task.tla: runs the programs the specification chooses as real
// QCoro::Task coroutines.
#include "vt.h"
#include "payload.h"
#include <QCoro/QCoroTask>

using namespace vt;
using namespace pl;

namespace {

struct Op { QString k; int s; };
using Prog = std::deque<Op>;

Prog progOf(const QJsonValue &v) {
    Prog p;
    for (const auto &o : v.toArray()) p.push_back({o.toObject()[S("k")].toString(), o.toObject()[S("s")].toInt()});
    return p;
}

enum class Ret { Value, Const, LValue, Convert };

template<typename T>
struct Sc : Scenario {
    struct Ctl {
        int id;
        Prog prog;
        Gate gate;
        QString phase = S("none");
        int freed = 0;
    };
    //! Counts destruction of the frame: parameters live exactly as long as the frame.
    struct FrameGuard {
        std::shared_ptr<Ctl> c;
        explicit FrameGuard(std::shared_ptr<Ctl> x) : c(std::move(x)) {}
        FrameGuard(FrameGuard &&) = default;
        ~FrameGuard() { if (c) ++c->freed; }
    };
    std::vector<std::shared_ptr<Ctl>> ctl;
    std::vector<std::unique_ptr<QCoro::Task<T>>> slot;
    bool oddExc;
    QString ret;
    int live0 = pl::live;

    explicit Sc(const QJsonObject &init) : ctl(num(init, "nc") + 1), slot(num(init, "ns") + 1) {
        for (size_t i = 1; i < ctl.size(); ++i) { ctl[i] = std::make_shared<Ctl>(); ctl[i]->id = int(i); }
        oddExc = str(init, "exc") == S("odd");
        ret = str(init, "ret");
    }

    void log(const char *e, int c, int t, int v) {
        QJsonObject o{{S("e"), S(e)}, {S("c"), c}, {S("t"), t}, {S("v"), v}};
        ev(o);
    }
    void throwIt(int id) { if (oddExc) throw Odd{id}; throw Err(id); }

    // which coroutine a Task object belongs to, tracked beside the objects
    std::map<const void *, int> dummy;
    std::vector<int> owner = std::vector<int>(64, 0);

    //! A value co_returned by reference must be left as it was.
    template<typename V>
    struct Kept {
        V &x;
        int v;
        ~Kept() {
            int now;
            if constexpr (std::is_same_v<V, Src>) now = x.v; else now = Tr<V>::read(x);
            if (now != v) ev(QJsonObject{{S("e"), S("the co_returned variable was changed")}, {S("v"), now}});
        }
    };

    static QCoro::Task<T> body(Sc *sc, std::shared_ptr<Ctl> c, FrameGuard) {
        struct End { Sc *sc; std::shared_ptr<Ctl> c; ~End() { c->phase = S("done"); ev(QJsonObject{{S("e"), S("end")}, {S("c"), c->id}}); } } end{sc, c};
        for (;;) {
            while (!c->prog.empty()) {
                const Op op = c->prog.front();
                c->prog.pop_front();
                if (op.k == S("ret")) {
                    const int v = c->id * 10;
                    if constexpr (std::is_void_v<T>) co_return;
                    else if constexpr (std::is_same_v<T, Converted>) {
                        if (sc->ret == S("const")) { const Src s{v}; co_return s; }
                        if (sc->ret == S("ref")) { Src keep{v}; Kept<Src> k{keep, v}; Src &x = keep; co_return x; }
                        co_return Src{v};
                    } else if constexpr (std::is_same_v<T, MoveOnly>) {
                        if (sc->ret == S("lvalue")) { T x = Tr<T>::make(v); co_return x; }
                        co_return Tr<T>::make(v);
                    } else {
                        if (sc->ret == S("const")) { const T x = Tr<T>::make(v); co_return x; }
                        if (sc->ret == S("lvalue")) { T x = Tr<T>::make(v); co_return x; }
                        if (sc->ret == S("ref")) { T keep = Tr<T>::make(v); Kept<T> k{keep, v}; T &x = keep; co_return x; }
                        if (sc->ret == S("cref")) { T keep = Tr<T>::make(v); Kept<T> k{keep, v}; const T &x = keep; co_return x; }
                        co_return Tr<T>::make(v);
                    }
                } else if (op.k == S("thr")) {
                    sc->throwIt(c->id * 10 + 1);
                } else if (op.k == S("drop")) {
                    sc->slot[op.s].reset();
                    sc->owner[op.s] = 0;
                } else { // await, awaitx, awaittmp
                    if (!sc->slot[op.s]) continue;
                    const int t = sc->owner[op.s];
                    c->phase = S("await");
                    if (op.k == S("awaitx")) {
                        if constexpr (std::is_void_v<T>) { co_await *sc->slot[op.s]; sc->log("got", c->id, t, t * 10); }
                        else { auto r = co_await *sc->slot[op.s]; sc->log("got", c->id, t, Tr<T>::read(r)); }
                    } else {
                        std::optional<QCoro::Task<T>> tmp;
                        if (op.k == S("awaittmp")) {
                            tmp.emplace(std::move(*sc->slot[op.s]));
                            sc->slot[op.s].reset();
                            sc->owner[op.s] = 0;
                        }
                        const QCoro::Task<T> &task = tmp ? *tmp : *sc->slot[op.s];
                        int exc = 0, val = 0;
                        try {
                            if constexpr (std::is_void_v<T>) { co_await task; val = t * 10; }
                            else { auto r = co_await task; val = Tr<T>::read(r); }
                        } catch (...) { exc = currentId(); }
                        tmp.reset();
                        if (exc) sc->log("exc", c->id, t, exc); else sc->log("got", c->id, t, val);
                    }
                    c->phase = S("run");
                }
            }
            c->phase = S("pause");
            co_await c->gate;
            c->phase = S("run");
        }
    }

    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        const int s = num(l, "s"), c = num(l, "c"), t = num(l, "t");
        if (a == S("Start") || a == S("StartAssign")) {
            ctl[c]->prog = progOf(l[S("p")]);
            ctl[c]->phase = S("run");
            if (a == S("Start")) {
                auto x = std::make_unique<QCoro::Task<T>>(body(this, ctl[c], FrameGuard(ctl[c])));
                slot[s] = std::move(x);
                owner[s] = c;
            } else {
                QCoro::Task<T> x = body(this, ctl[c], FrameGuard(ctl[c]));
                if (!slot[s]) slot[s] = std::make_unique<QCoro::Task<T>>(std::move(x));
                else *slot[s] = std::move(x);
                owner[s] = c;
            }
        } else if (a == S("Give")) {
            ctl[c]->prog = progOf(l[S("p")]);
            ctl[c]->gate.open();
        } else if (a == S("Drop")) {
            slot[s].reset();
            owner[s] = 0;
        } else if (a == S("Null")) {
            slot[s] = std::make_unique<QCoro::Task<T>>();
            owner[s] = -1;
        } else if (a == S("Move")) {
            if (slot[t]) *slot[t] = std::move(*slot[s]);
            else slot[t] = std::make_unique<QCoro::Task<T>>(std::move(*slot[s]));
            owner[t] = owner[s];
            owner[s] = -1;
        } else if (a == S("SelfMove")) {
            auto &x = *slot[s];
            *slot[s] = std::move(x);
        }
    }
    QJsonObject obs() override {
        QJsonArray ph, fr, rd;
        for (size_t i = 1; i < ctl.size(); ++i) { ph.append(ctl[i]->phase); fr.append(ctl[i]->freed); }
        for (size_t i = 1; i < slot.size(); ++i)
            rd.append(!slot[i] ? S("none") : slot[i]->isReady() ? S("ready") : S("busy"));
        QJsonObject o{{S("ph"), ph}, {S("fr"), fr}, {S("rd"), rd}};
        bool counted = false;
        if constexpr (!std::is_void_v<T>) counted = Tr<T>::counted;
        o[S("live")] = counted ? QJsonValue(pl::live - live0) : QJsonValue();
        return o;
    }
};

} // namespace

int main(int argc, char **argv) {
    return run(argc, argv, [](const QJsonObject &i) -> std::unique_ptr<Scenario> {
        const auto t = str(i, "type");
        if (t == S("void")) return std::make_unique<Sc<void>>(i);
        if (t == S("int")) return std::make_unique<Sc<int>>(i);
        if (t == S("qstring")) return std::make_unique<Sc<QString>>(i);
        if (t == S("counted")) return std::make_unique<Sc<Counted>>(i);
        if (t == S("nodefault")) return std::make_unique<Sc<NoDefault>>(i);
        if (t == S("moveonly")) return std::make_unique<Sc<MoveOnly>>(i);
        if (t == S("converted")) return std::make_unique<Sc<Converted>>(i);
        abort();
    });
}
