// Included once per element type: QCORO_FOREACH does not compile on a dependent type with this g++.
namespace NS {
using E = ELEM;
struct Sc : Scenario {
    using V = std::remove_cvref_t<E>;
    using Gen = QCoro::AsyncGenerator<E>;
    static constexpr bool isConst = std::is_const_v<std::remove_reference_t<E>>;
    std::vector<std::unique_ptr<Gen>> slot;
    std::vector<int> owner;
    std::vector<Gate> bodyGate;
    struct Con {
        Gate gate;
        QJsonObject op;
        std::optional<Gen::iterator> it;
        int itOwner = 0;
        bool waiting = false, loop = false;
        const std::remove_reference_t<E> *elem = nullptr;
    };
    std::vector<std::unique_ptr<Con>> con;
    std::vector<QCoro::Task<>> tasks;
    bool temp, oddExc, wrapped, hop;
    int live0 = pl::live;

    explicit Sc(const QJsonObject &i) : slot(num(i, "ns") + 1), owner(num(i, "ns") + 1), bodyGate(num(i, "nc") + 1) {
        temp = flag(i, "temp");
        oddExc = flag(i, "odd");
        wrapped = flag(i, "wrap");
        hop = flag(i, "hop");
        con.emplace_back();
        for (int k = 1; k <= num(i, "nk"); ++k) {
            con.push_back(std::make_unique<Con>());
            tasks.push_back(consumer(this, k));
        }
    }

    static Gen body(Sc *sc, int c, std::vector<QString> prog, bool thr, Guard) {
        Guard locals(c, "locals");
        logc("begin", c);
        int k = 0;
        for (const auto &p : prog) {
            if (p == S("s")) {
                logc("susp", c);
                if (sc->hop) co_await wait(sc->bodyGate[c]);
                else co_await sc->bodyGate[c];
                logc("cont", c);
            } else {
                ++k;
                if (sc->temp) {
#ifndef NO_TEMP
                    co_yield Tr<V>::make(c * 100 + k);
                    logc("after", c, QJsonValue());
#endif
                } else {
                    V x = Tr<V>::make(c * 100 + k);
                    co_yield x;
                    logc("after", c, isConst ? QJsonValue() : QJsonValue(Tr<V>::read(x)));
                }
            }
        }
        if (thr) { if (sc->oddExc) throw Odd{c * 100 + 99}; throw Err(c * 100 + 99); }
    }

    //! passes on what another generator yields
    static Gen wrap(Gen inner) {
        auto it = co_await inner.begin();
        while (it != inner.end()) {
            co_yield *it;
            co_await ++it;
        }
    }
    static QCoro::Task<> wait(Gate &gate) { co_await gate; }

    Gen takeFrom(int s) { return std::move(*slot[s]); }

    static QCoro::Task<> consumer(Sc *sc, int k) {
        auto &me = *sc->con[k];
        for (;;) {
            me.waiting = false;
            co_await me.gate;
            const auto op = str(me.op, "a");
            const int s = num(me.op, "s");
            me.waiting = true;
            if (op == S("Begin")) {
                const int c = sc->owner[s];
                me.itOwner = c;
                try {
                    me.it = co_await sc->slot[s]->begin();
                    if (c > 0 && *me.it != Gen().end()) logk("elem", k, c, Tr<V>::read(**me.it));
                    else { logk("end", k, c); me.itOwner = 0; }
                } catch (...) { me.it.reset(); me.itOwner = 0; logk("exc", k, c, currentId()); }
            } else if (op == S("Inc")) {
                const int c = me.itOwner;
                try {
                    auto &r = co_await ++*me.it;
                    if (&r != &*me.it) ev("++ returned another iterator");
                    if (*me.it != Gen().end()) logk("elem", k, c, Tr<V>::read(**me.it));
                    else { logk("end", k, c); me.itOwner = 0; }
                } catch (...) { me.itOwner = 0; logk("exc", k, c, currentId()); }
            } else if (op == S("Loop")) {
                const int c = sc->owner[s];
                bool brk = false;
                try {
                    if (flag(me.op, "own")) {
                        sc->owner[s] = -1;
                        QCORO_FOREACH(auto &x, sc->takeFrom(s)) {
                            logk("elem", k, c, Tr<V>::read(x));
                            me.waiting = false;
                            me.loop = true;
                            co_await me.gate;
                            me.waiting = true;
                            me.loop = false;
                            if (str(me.op, "a") == S("Break")) { brk = true; break; }
                        }
                    } else {
                        QCORO_FOREACH(auto &x, *sc->slot[s]) {
                            logk("elem", k, c, Tr<V>::read(x));
                            me.waiting = false;
                            me.loop = true;
                            co_await me.gate;
                            me.waiting = true;
                            me.loop = false;
                            if (str(me.op, "a") == S("Break")) { brk = true; break; }
                        }
                    }
                    logk(brk ? "break" : "loopend", k, c);
                } catch (...) { logk("exc", k, c, currentId()); }
            }
        }
    }

    void invalidate(int c) {
        for (size_t i = 1; i < con.size(); ++i)
            if (c > 0 && con[i]->itOwner == c) { con[i]->it.reset(); con[i]->itOwner = 0; }
    }

    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        const int s = num(l, "s"), k = num(l, "k"), c = num(l, "c"), t = num(l, "t");
        if (a == S("Create")) {
            std::vector<QString> p;
            for (const auto &x : l[S("p")].toArray()) p.push_back(x.toString());
            Gen g = body(this, c, p, flag(l, "t"), Guard(c, "frame"));
            if (wrapped) g = wrap(std::move(g));
            invalidate(owner[s]);
            if (slot[s]) *slot[s] = std::move(g);
            else slot[s] = std::make_unique<Gen>(std::move(g));
            owner[s] = c;
        } else if (a == S("Begin") || a == S("Inc") || a == S("Loop") || a == S("Next") || a == S("Break")) {
            con[k]->op = l;
            con[k]->gate.open();
        } else if (a == S("Set")) {
            assign<V>(**con[k]->it);
        } else if (a == S("Forget")) {
            con[k]->it.reset();
            con[k]->itOwner = 0;
        } else if (a == S("Give")) {
            con[t]->it = con[k]->it;
            con[t]->itOwner = std::exchange(con[k]->itOwner, 0);
            con[k]->it.reset();
        } else if (a == S("Open")) {
            bodyGate[c].open();
        } else if (a == S("Drop")) {
            invalidate(owner[s]);
            slot[s].reset();
            owner[s] = 0;
        } else if (a == S("Null")) {
            slot[s] = std::make_unique<Gen>();
            owner[s] = -1;
        } else if (a == S("Move")) {
            invalidate(owner[t]);
            if (slot[t]) *slot[t] = std::move(*slot[s]);
            else slot[t] = std::make_unique<Gen>(std::move(*slot[s]));
            owner[t] = owner[s];
            owner[s] = -1;
        } else if (a == S("SelfMove")) {
            auto &x = *slot[s];
            *slot[s] = std::move(x);
        } else if (a == S("Swap")) {
            swap(*slot[s], *slot[t]);
            std::swap(owner[s], owner[t]);
        }
    }
    QJsonObject obs() override {
        QJsonArray st, v;
        Gen none;
        for (size_t i = 1; i < con.size(); ++i) {
            auto &me = *con[i];
            const bool end = me.it && *me.it == none.end();
            const bool readable = !me.waiting && me.it && !end && !me.loop;
            st.append(me.waiting ? S("wait") : me.loop ? S("loop") : !me.it ? S("none") : end ? S("end") : S("at"));
            v.append(!readable ? QJsonValue(0) : isConst ? QJsonValue() : QJsonValue(Tr<V>::read(**me.it)));
        }
        QJsonObject o{{S("k"), st}, {S("v"), v}};
        o[S("live")] = Tr<V>::counted ? QJsonValue(pl::live - live0) : QJsonValue();
        return o;
    }
};
} // namespace NS
#undef ELEM
#undef NS
#undef NO_TEMP
