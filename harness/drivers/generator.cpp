// Conformance driver for specs/Generator.tla.
#include "vt.h"
#include "payload.h"
#include <QCoro/QCoroGenerator>

using namespace vt;
using namespace pl;

namespace {

void log(const char *e, int c) { ev(QJsonObject{{S("e"), S(e)}, {S("c"), c}}); }
void log(const char *e, int c, QJsonValue v) { ev(QJsonObject{{S("e"), S(e)}, {S("c"), c}, {S("v"), v}}); }

struct Guard { // destroyed with the frame
    int c = 0;
    const char *what;
    Guard(int c, const char *w) : c(c), what(w) {}
    Guard(Guard &&o) noexcept : c(o.c), what(o.what) { o.c = 0; }
    ~Guard() { if (c) log(what, c); }
};

// E is the element type of the generator, V the value type stored
template<typename E>
struct Sc : Scenario {
    using V = std::remove_cvref_t<E>;
    using Gen = QCoro::Generator<E>;
    std::vector<std::unique_ptr<Gen>> slot;
    std::vector<std::optional<typename Gen::iterator>> it;
    std::vector<int> itOwner;
    std::vector<int> owner;
    bool temp, oddExc, wrapped;
    int live0 = pl::live;

    explicit Sc(const QJsonObject &i) : slot(num(i, "ns") + 1), it(num(i, "ni") + 1), itOwner(num(i, "ni") + 1), owner(num(i, "ns") + 1) {
        temp = flag(i, "temp");
        oddExc = flag(i, "odd");
        wrapped = flag(i, "wrap");
    }
    static constexpr bool isConst = std::is_const_v<std::remove_reference_t<E>>;

    static Gen body(Sc *sc, int c, int n, bool thr, Guard) {
        Guard locals(c, "locals");
        log("begin", c);
        for (int k = 1; k <= n; ++k) {
            if (sc->temp) {
                if constexpr (!std::is_lvalue_reference_v<E> || isConst) {
                    co_yield Tr<V>::make(c * 100 + k);
                    log("after", c, QJsonValue());
                } else {
                    abort();
                }
            } else {
                V x = Tr<V>::make(c * 100 + k);
                co_yield x;
                log("after", c, isConst ? QJsonValue() : QJsonValue(Tr<V>::read(x)));
            }
        }
        if (n == 0) {}
        if (thr) { if (sc->oddExc) throw Odd{c * 100 + 99}; throw Err(c * 100 + 99); }
    }

    //! passes on what another generator yields
    static Gen wrap(Gen inner) {
        for (auto it = inner.begin(); it != inner.end(); ++it) co_yield *it;
    }

    void invalidate(int c) {
        for (size_t i = 1; i < it.size(); ++i)
            if (itOwner[i] == c && c > 0) { it[i].reset(); itOwner[i] = 0; }
    }

    void step(const QJsonObject &l) override {
        doStep(l);
        Gen none;
        for (size_t i = 1; i < it.size(); ++i) if (it[i] && *it[i] == none.end()) itOwner[i] = 0;
    }
    void doStep(const QJsonObject &l) {
        const auto a = str(l, "a");
        const int s = num(l, "s"), i = num(l, "i"), c = num(l, "c"), t = num(l, "t");
        if (a == S("Create")) {
            Gen g = body(this, c, num(l, "n"), flag(l, "t"), Guard(c, "frame"));
            if (wrapped) g = wrap(std::move(g));
            invalidate(owner[s]);
            if (slot[s]) *slot[s] = std::move(g);
            else slot[s] = std::make_unique<Gen>(std::move(g));
            owner[s] = c;
        } else if (a == S("Begin")) {
            itOwner[i] = owner[s];
            it[i] = slot[s]->end();
            try { it[i] = slot[s]->begin(); } catch (...) { log("exc", owner[s], currentId()); }
        } else if (a == S("Inc")) {
            try { ++*it[i]; } catch (...) { log("exc", itOwner[i], currentId()); }
        } else if (a == S("Set")) {
            if constexpr (!isConst) **it[i] = Tr<V>::make(Tr<V>::read(**it[i]) + 1000);
        } else if (a == S("Forget")) {
            it[i].reset();
            itOwner[i] = 0;
        } else if (a == S("Loop")) {
            int k = num(l, "k");
            bool brk = false;
            try {
                for (auto &&x : *slot[s]) {
                    log("elem", owner[s], Tr<V>::read(x));
                    if (--k == 0) { brk = true; break; }
                }
                log(brk ? "break" : "loopend", owner[s]);
            } catch (...) { log("exc", owner[s], currentId()); }
        } else if (a == S("Drop")) {
            invalidate(owner[s]);
            slot[s].reset();
            owner[s] = 0;
        } else if (a == S("Null")) {
            slot[s] = std::make_unique<Gen>();
            owner[s] = -1;
        } else if (a == S("Move")) {
            invalidate(owner[t]);
            if (slot[t]) *slot[t] = std::move(*slot[s]);
            else slot[t] = std::make_unique<Gen>(std::move(*slot[s]));
            owner[t] = owner[s];
            owner[s] = -1;
        } else if (a == S("SelfMove")) {
            auto &x = *slot[s];
            *slot[s] = std::move(x);
        }
    }
    QJsonObject obs() override {
        QJsonArray st, v;
        Gen none; // end() does not depend on the generator
        for (size_t i = 1; i < it.size(); ++i) {
            const bool end = it[i] && *it[i] == none.end();
            if (it[i] && end == (*it[i] != none.end())) ev("inconsistent comparison");
            st.append(!it[i] ? S("none") : end ? S("end") : S("at"));
            v.append(it[i] && !end ? (isConst ? Tr<V>::read(**it[i]) % 1000 : Tr<V>::read(**it[i])) : 0);
            if constexpr (isConst) if (it[i] && !end) v[int(i) - 1] = QJsonValue();
        }
        QJsonObject o{{S("it"), st}, {S("v"), v}};
        o[S("live")] = Tr<V>::counted ? QJsonValue(pl::live - live0) : QJsonValue();
        return o;
    }
};

} // namespace

int main(int argc, char **argv) {
    return run(argc, argv, [](const QJsonObject &i) -> std::unique_ptr<Scenario> {
        const auto t = str(i, "type");
        if (t == S("int")) return std::make_unique<Sc<int>>(i);
        if (t == S("int&")) return std::make_unique<Sc<int &>>(i);
        if (t == S("constint")) return std::make_unique<Sc<const int>>(i);
        if (t == S("constqstring&")) return std::make_unique<Sc<const QString &>>(i);
        if (t == S("qstring")) return std::make_unique<Sc<QString>>(i);
        if (t == S("string&")) return std::make_unique<Sc<std::string &>>(i);
        if (t == S("counted")) return std::make_unique<Sc<Counted>>(i);
        if (t == S("nodefault&")) return std::make_unique<Sc<NoDefault &>>(i);
        if (t == S("moveonly")) return std::make_unique<Sc<MoveOnly>>(i);
        abort();
    });
}
