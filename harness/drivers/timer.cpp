// Conformance driver for specs/Timer.tla.
#include "vt.h"
#include <QCoro/QCoroTask>
#include <QCoro/QCoroTimer>
#include <chrono>
#include <time.h>

using namespace vt;
using namespace std::chrono;

// All clocks of the process follow the virtual clock.
static const qint64 RealEpoch = 1700000000000;
extern "C" int clock_gettime(clockid_t id, timespec *ts) noexcept {
    const qint64 ms = vt::now() + (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? RealEpoch : 0);
    ts->tv_sec = ms / 1000;
    ts->tv_nsec = (ms % 1000) * 1000000;
    return 0;
}
//! a clock of its own, with its own epoch and resolution
struct Custom {
    using rep = qint64;
    using period = std::micro;
    using duration = microseconds;
    using time_point = std::chrono::time_point<Custom>;
    static constexpr bool is_steady = false;
    static time_point now() noexcept { return time_point(microseconds((vt::now() - 777777) * 1000)); }
};

namespace {
qint64 amount(qint64 ms) { return ms >= 1000 ? ms - 1000 + (qint64(1) << 31) : ms; }
qint64 amountUs(qint64 us) { return us == 7777777 ? -1000 : us >= 1000000 ? us - 1000000 + (qint64(1) << 31) * 1000 : us; }

struct Sc : Scenario {
    std::vector<std::unique_ptr<QTimer>> tm;
    std::vector<int> n;
    std::vector<QCoro::Task<>> keep;
    QString rep;
    explicit Sc(const QJsonObject &i) : n(num(i, "n") + 1) {
        rep = str(i, "rep");
        for (int t = 0; t <= num(i, "nt"); ++t) { tm.push_back(std::make_unique<QTimer>()); tm.back()->setInterval(1); }
    }
    void resumed(int w) { ++n[w]; ev(QJsonObject{{S("e"), S("resume")}, {S("w"), w}}); }
    static QCoro::Task<> waiter(Sc *sc, int w, QString k, QTimer *t, QString prog) {
        for (int r = 0; r < (prog == S("twice") ? 2 : 1); ++r) {
            if (k == S("wrapped")) {
                if (w % 2) co_await LATER(qCoro(t), waitForTimeout());
                else co_await LATER(qCoro(*t), waitForTimeout());
            } else if (w % 2) {
                co_await t;
            } else {
                co_await *t;
            }
            sc->resumed(w);
            if (prog == S("stop")) t->stop();
            if (prog == S("restart") || prog == S("spin")) t->start();
            if (prog == S("spin")) {
                advance(t->interval());
                jump(t->interval());
                for (int i = 0; i < 10; ++i) QCoreApplication::processEvents();
            }
        }
    }
    static QCoro::Task<> sleeper(Sc *sc, int w, qint64 us, QString c) {
        if (c == S("for")) {
            if (us % 1000 == 0 && sc->rep == S("ms")) co_await QCoro::sleepFor(milliseconds(us / 1000));
            else if (us % 1000000 == 0 && sc->rep == S("ms")) co_await QCoro::sleepFor(seconds(us / 1000000));
            else if (sc->rep == S("dbl")) co_await QCoro::sleepFor(duration<double, std::milli>(us / 1000.0));
            else if (sc->rep == S("ns")) co_await QCoro::sleepFor(nanoseconds(us * 1000));
            else co_await QCoro::sleepFor(microseconds(us));
        } else if (c == S("steady")) {
            co_await QCoro::sleepUntil(steady_clock::now() + microseconds(us));
        } else if (c == S("system")) {
            if (us % 1000 == 0 && sc->rep == S("ms")) co_await QCoro::sleepUntil(time_point_cast<milliseconds>(system_clock::now()) + milliseconds(us / 1000));
            else co_await QCoro::sleepUntil(system_clock::now() + microseconds(us));
        } else {
            co_await QCoro::sleepUntil(Custom::now() + microseconds(us));
        }
        sc->resumed(w);
    }
    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        const int w = num(l, "w");
        if (a == S("Await")) keep.push_back(waiter(this, w, str(l, "k"), tm[num(l, "t")].get(), str(l, "prog")));
        else if (a == S("Sleep")) keep.push_back(sleeper(this, w, amountUs(num(l, "us")), str(l, "c")));
        else if (a == S("Start")) {
            auto &t = *tm[num(l, "t")];
            t.setSingleShot(flag(l, "s"));
            t.start(num(l, "n"));
        } else if (a == S("Stop")) tm[num(l, "t")]->stop();
        else if (a == S("Advance")) advance(amount(num(l, "d")));
    }
    QJsonObject obs() override {
        QJsonArray c, t;
        for (size_t i = 1; i < n.size(); ++i) c.append(n[i]);
        for (size_t i = 1; i < tm.size(); ++i) t.append(tm[i]->isActive() ? 1 : 0);
        return {{S("n"), c}, {S("act"), t}};
    }
};
} // namespace

int main(int argc, char **argv) {
    return run(argc, argv, [](const QJsonObject &i) { return std::make_unique<Sc>(i); });
}
