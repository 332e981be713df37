// Conformance driver for specs/Signal.tla and specs/Listener.tla.
#include "vt.h"
#include <QCoro/QCoroTask>
#include <QCoro/QCoroSignal>

using namespace vt;

class Em : public QObject {
    Q_OBJECT
public:
    void emitPriv(int v) { Q_EMIT priv(v, QPrivateSignal()); }
    void emitPrivOnly() { Q_EMIT privOnly(QPrivateSignal()); }
Q_SIGNALS:
    void none();
    void one(int v);
    void two(int v, const QString &s);
    void ref(const QString &s);
    void priv(int v, QPrivateSignal);
    void privOnly(QPrivateSignal);
    void over(int v);
    void over(const QString &);
};

static QString text(int v) { return QStringLiteral("a string long enough to be allocated %1").arg(v); }
static int untext(const QString &s) { return s.section(QLatin1Char(' '), -1).toInt(); }

namespace kinds {
struct None { static constexpr auto sig = &Em::none; static QJsonValue read(const std::tuple<> &) { return {}; } static void fire(Em *e, int) { Q_EMIT e->none(); } };
struct One { static constexpr auto sig = &Em::one; static QJsonValue read(int v) { return v; } static void fire(Em *e, int v) { Q_EMIT e->one(v); } };
struct Two { static constexpr auto sig = &Em::two;
    static QJsonValue read(const std::tuple<int, QString> &t) { auto &[a, b] = t; return a == untext(b) ? QJsonValue(a) : QJsonValue(-5); }
    static void fire(Em *e, int v) { QString s = text(v); Q_EMIT e->two(v, s); s.fill(QLatin1Char('x')); } };
struct Ref { static constexpr auto sig = &Em::ref; static QJsonValue read(const QString &s) { return untext(s); }
    static void fire(Em *e, int v) { QString s = text(v); Q_EMIT e->ref(s); s.fill(QLatin1Char('x')); } };
struct Priv { static constexpr auto sig = &Em::priv; static QJsonValue read(const int &t) { return t; } static void fire(Em *e, int v) { e->emitPriv(v); } };
struct PrivOnly { static constexpr auto sig = &Em::privOnly; static QJsonValue read(const std::tuple<> &) { return {}; } static void fire(Em *e, int) { e->emitPrivOnly(); } };
struct Over { static constexpr auto sig = static_cast<void (Em::*)(int)>(&Em::over); static QJsonValue read(int v) { return v; } static void fire(Em *e, int v) { Q_EMIT e->over(v); } };
}

template<typename F> static auto withKind(const QString &k, F f) {
    if (k == S("none")) return f(kinds::None{});
    if (k == S("one")) return f(kinds::One{});
    if (k == S("two")) return f(kinds::Two{});
    if (k == S("ref")) return f(kinds::Ref{});
    if (k == S("priv")) return f(kinds::Priv{});
    if (k == S("privonly")) return f(kinds::PrivOnly{});
    if (k == S("over")) return f(kinds::Over{});
    abort();
}
static const QString plainKind(const QString &k) { return k; }

namespace {
constexpr qint64 Unit = 40;
//! Time passes at once; where there are long timeouts, from deadline to deadline, as intermediate timers may be needed
bool longTimeouts = false;
std::chrono::milliseconds timeout(int to) { longTimeouts |= to >= 1000; return std::chrono::milliseconds(to * Unit); }
void pass(int d) { if (longTimeouts) advance(d * Unit); else jump(d * Unit); }

struct Sc : Scenario {
    QPointer<Em> em = new Em;
    QString kind[3];
    bool form3;
    int emitted = 0, maxEmit;
    std::vector<int> n;
    std::vector<QCoro::Task<>> keep;

    explicit Sc(const QJsonObject &i) : n(num(i, "n") + 1) {
        kind[1] = str(i, "k1");
        kind[2] = str(i, "k2");
        form3 = flag(i, "form3");
        maxEmit = num(i, "max");
    }
    void fire(int s) {
        const int v = ++emitted;
        withKind(kind[s], [&](auto k) { decltype(k)::fire(em, v); });
    }
    template<typename K>
    static QCoro::Task<> waiter(Sc *sc, int id, int s, int to, QString prog) {
        const int rounds = prog == S("twice") ? 2 : 1;
        for (int r = 0; r < rounds && sc->em; ++r) {
            QJsonObject o{{S("e"), S("resume")}, {S("w"), id}};
            if (to != 99 || sc->form3) {
                const auto x = co_await qCoro(sc->em.data(), K::sig, to == 99 ? std::chrono::milliseconds(-1) : timeout(to));
                o[S("r")] = x ? S("val") : S("empty");
                o[S("v")] = x ? K::read(*x) : QJsonValue(0);
            } else {
                const auto x = co_await qCoro(sc->em.data(), K::sig);
                o[S("r")] = S("val");
                o[S("v")] = K::read(x);
            }
            ev(o);
            ++sc->n[id];
            if (prog == S("emit") && o[S("r")] == S("val") && sc->em && sc->emitted < sc->maxEmit) sc->fire(3 - s);
            if (prog == S("kill")) delete sc->em.data();
        }
    }
    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        if (a == S("Await")) {
            const int s = num(l, "s");
            withKind(kind[s], [&](auto k) {
                auto t = waiter<decltype(k)>(this, num(l, "w"), s, num(l, "to"), str(l, "prog"));
                if (num(l, "w") % 2) keep.push_back(std::move(t)); // others are detached
            });
        } else if (a == S("Emit")) {
            fire(num(l, "s"));
        } else if (a == S("Destroy")) {
            delete em.data();
        } else if (a == S("Settle")) {
            if (str(l, "first") == S("t")) timersFirst();
            pass(num(l, "d"));
        }
    }
    QJsonObject obs() override {
        QJsonArray c;
        for (size_t i = 1; i < n.size(); ++i) c.append(n[i]);
        return {{S("n"), c}, {S("alive"), em ? 1 : 0}};
    }
};

//! specs/Listener.tla
struct Ls : Scenario {
    QPointer<Em> em = new Em;
    QString kind;
    int emitted = 0;
    struct Lis {
        virtual ~Lis() = default;
        Gate gate;
        bool waiting = false, ended = false, autom = false;
        QJsonArray seen;
    };
    template<typename K> struct LisK : Lis {
        using Gen = decltype(qCoroSignalListener(static_cast<Em *>(nullptr), K::sig));
        std::optional<Gen> gen;
        QCoro::Task<> task;
        static QCoro::Task<> consume(LisK *me, int id) {
            co_await me->gate;
            me->waiting = true;
            auto it = co_await me->gen->begin();
            while (it != me->gen->end()) {
                me->waiting = false;
                ev(QJsonObject{{S("e"), S("elem")}, {S("l"), id}, {S("v"), K::read(*it)}});
                me->seen.append(K::read(*it));
                if (!me->autom) co_await me->gate;
                me->waiting = true;
                co_await ++it;
            }
            me->waiting = false;
            me->ended = true;
            ev(QJsonObject{{S("e"), S("end")}, {S("l"), id}});
        }
    };
    std::vector<std::unique_ptr<Lis>> ls;
    explicit Ls(const QJsonObject &i) : ls(num(i, "n") + 1) { kind = str(i, "k1"); }
    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        const int id = num(l, "l");
        if (a == S("Listen")) {
            withKind(kind, [&](auto k) {
                using K = decltype(k);
                auto p = std::make_unique<LisK<K>>();
                if (num(l, "to") == 99) p->gen.emplace(qCoroSignalListener(em.data(), K::sig));
                else p->gen.emplace(qCoroSignalListener(em.data(), K::sig, timeout(num(l, "to"))));
                p->autom = str(l, "mode") == S("auto");
                p->task = LisK<K>::consume(p.get(), id);
                ls[id] = std::move(p);
            });
        } else if (a == S("Ask")) {
            ls[id]->gate.open();
        } else if (a == S("Drop")) {
            withKind(kind, [&](auto k) { static_cast<LisK<decltype(k)> &>(*ls[id]).gen.reset(); });
        } else if (a == S("Emit")) {
            for (int n = num(l, "k"); n > 0 && em; --n) {
                ++emitted;
                withKind(kind, [&](auto k) { decltype(k)::fire(em, emitted); });
            }
        } else if (a == S("Destroy")) {
            delete em.data();
        } else if (a == S("Settle")) {
            if (str(l, "first") == S("t")) timersFirst();
            pass(num(l, "d"));
        }
    }
    QJsonObject obs() override {
        QJsonArray c, q;
        for (size_t i = 1; i < ls.size(); ++i) q.append(ls[i] ? ls[i]->seen : QJsonArray());
        for (size_t i = 1; i < ls.size(); ++i) c.append(!ls[i] ? S("none") : ls[i]->ended ? S("ended") : ls[i]->waiting ? S("wait") : S("busy"));
        return {{S("l"), c}, {S("seen"), q}};
    }
};
} // namespace

int main(int argc, char **argv) {
    return run(argc, argv, [](const QJsonObject &i) -> std::unique_ptr<Scenario> {
        if (str(i, "spec") == S("listener")) return std::make_unique<Ls>(i);
        return std::make_unique<Sc>(i);
    });
}

#include "signal.moc"
