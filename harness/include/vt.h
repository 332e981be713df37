// Conformance-driver runtime: a Qt event dispatcher with a virtual clock, and the line protocol
// through which lib/replay.py drives the real code one specification action at a time.
#pragma once

#include <QAbstractEventDispatcher>
#include <QCoreApplication>
#include <QJsonArray>
#include <QJsonDocument>
#include <QJsonObject>
#include <QObject>
#include <QPointer>
#include <coroutine>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace vt {

//! in the specifications' unit of time (40 ms): the timeout that is asked for by not giving one
constexpr int Dflt = 750;

//! One test scenario, living in one forked child.
struct Scenario {
    virtual ~Scenario() = default;
    //! Performs one environment action. Returns after the stimulus; the loop then settles
    //! (unless the label carries "ns": no settling) and obs() is reported.
    virtual void step(const QJsonObject &label) = 0;
    virtual QJsonObject obs() = 0;
};
using Factory = std::function<std::unique_ptr<Scenario>(const QJsonObject &init)>;

//! Entry point of every driver.
int run(int argc, char **argv, Factory factory, std::function<QCoreApplication *(int &, char **)> mkApp = {});

//! Appends an event to the log of the current step.
void ev(const QJsonValue &e);
inline void ev(const char *what, QJsonValue a = {}, QJsonValue b = {}) {
    QJsonArray arr{QString::fromLatin1(what)};
    if (!a.isNull()) arr.append(a);
    if (!b.isNull()) arr.append(b);
    ev(QJsonValue(arr));
}
//! virtual time
qint64 now();
//! move the virtual clock; due timers fire in deadline order while the loop settles
void advance(qint64 ms);
//! move the virtual clock at once
void jump(qint64 ms);
//! have QDeadlineTimer and QElapsedTimer (in every thread) read the virtual clock
void virtualClock();
//! in the next dispatcher pass, fire due timers before delivering posted events
void timersFirst();
//! Enable real sockets: while idle, poll registered notifiers; obs is only reported when
//! `pred` says the world is quiet.
void ioSettle(std::function<bool()> quiet);
//! warnings seen (qWarning and above)
int warnings();
//! number of active (virtual) timers
int activeTimers();

//! A gate the driver opens: a coroutine suspended here is resumed by open().
struct Gate {
    std::coroutine_handle<> h;
    bool waiting() const { return static_cast<bool>(h); }
    void open() {
        auto x = h;
        h = nullptr;
        if (x) x.resume();
    }
    struct Awaiter {
        Gate &g;
        bool await_ready() const noexcept { return false; }
        void await_suspend(std::coroutine_handle<> c) noexcept { g.h = c; }
        void await_resume() noexcept {}
    };
    Awaiter operator co_await() noexcept { return {*this}; }
};

inline QString S(const char *s) { return QString::fromLatin1(s); }
inline QString str(const QJsonObject &o, const char *k) { return o.value(QLatin1String(k)).toString(); }
inline int num(const QJsonObject &o, const char *k, int d = 0) { return o.value(QLatin1String(k)).toInt(d); }
inline bool flag(const QJsonObject &o, const char *k) { return o.value(QLatin1String(k)).toBool(false); }

//! Calls a method of what qCoro() returned, which is gone (with the arguments) before the result is awaited:
//! the operation must not depend on it.
template<typename W, typename F>
inline auto later(W *w, F f) {
    std::unique_ptr<W> owner(w);
    return f(*w);
}
#define LATER(wrapper, ...) ::vt::later(new auto(wrapper), [&](auto &w_) { return w_.__VA_ARGS__; })

} // namespace vt
