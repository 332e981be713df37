// Conformance driver for specs/ThreadHop.tla.  Worker threads have an event dispatcher which processes
// events only when told, so the specification chooses the order in which the threads run.
#include "vt.h"
#include <QThread>
#include <QEventLoop>
#include <QPromise>
#include <QMutex>
#include <QWaitCondition>
#include <dlfcn.h>
#include <QCoro/QCoroTask>
#include <QCoro/QCoroThread>
#include <QCoro/QCoroSignal>
#include <QCoro/QCoroTimer>
#include <QCoro/QCoroFuture>

using namespace vt;

namespace {
constexpr int Unit = 40;

// spots at which a thread may start in the middle of a call: QThread's state queries
int spotsLeft = 0;
std::function<void()> midStep;
void spot() {
    if (!midStep || --spotsLeft > 0) return;
    auto f = std::move(midStep);
    midStep = nullptr;
    f();
}
bool query(const QThread *t, const char *sym) {
    auto f = reinterpret_cast<bool (*)(const QThread *)>(dlsym(RTLD_NEXT, sym));
    const bool mine = bool(midStep);
    if (mine) spot();
    const bool r = f(t);
    if (mine) spot();
    return r;
}
} // namespace
bool QThread::isRunning() const { return query(this, "_ZNK7QThread9isRunningEv"); }
bool QThread::isFinished() const { return query(this, "_ZNK7QThread10isFinishedEv"); }

namespace {

class CtlDispatcher final : public QAbstractEventDispatcher {
public:
    struct T { int id; qint64 interval; Qt::TimerType type; QObject *obj; qint64 deadline; };
    std::vector<T> timers;
    std::atomic<bool> woken{false}, interrupted{false};
    QMutex m;
    QWaitCondition cv;
    bool entered = false, pending = false;
    std::function<void()> cmd;

    //! from the main thread: runs f on this dispatcher's thread and returns when it is done
    void exec(std::function<void()> f) {
        QMutexLocker l(&m);
        while (!entered) cv.wait(&m);
        cmd = std::move(f);
        pending = true;
        cv.wakeAll();
        while (pending) cv.wait(&m);
    }
    void waitEntered() {
        QMutexLocker l(&m);
        while (!entered) cv.wait(&m);
    }
    bool fire() {
        bool any = false;
        for (auto t : std::vector<T>(timers)) {
            if (t.deadline > vt::now()) continue;
            for (auto &x : timers) {
                if (x.id != t.id) continue;
                x.deadline = vt::now() + std::max<qint64>(1, x.interval);
                QTimerEvent e(t.id);
                any = true;
                QCoreApplication::sendEvent(t.obj, &e);
                break;
            }
        }
        return any;
    }
    //! returns whether there was anything to do
    bool drain() {
        bool any = false;
        for (;;) {
            bool pass = woken.exchange(false);
            QCoreApplication::sendPostedEvents();
            pass |= fire();
            if (!pass) return any;
            any = true;
        }
    }
    bool processEvents(QEventLoop::ProcessEventsFlags flags) override {
        if (!(flags & QEventLoop::WaitForMoreEvents)) return drain();
        QMutexLocker l(&m);
        entered = true;
        cv.wakeAll();
        while (!pending && !interrupted) cv.wait(&m);
        if (!pending) return false;
        auto f = std::move(cmd);
        l.unlock();
        f();
        l.relock();
        pending = false;
        cv.wakeAll();
        return true;
    }
    void registerSocketNotifier(QSocketNotifier *) override {}
    void unregisterSocketNotifier(QSocketNotifier *) override {}
    void registerTimer(int id, qint64 interval, Qt::TimerType type, QObject *obj) override {
        timers.push_back({id, interval, type, obj, vt::now() + interval});
    }
    bool unregisterTimer(int id) override {
        auto n = timers.size();
        timers.erase(std::remove_if(timers.begin(), timers.end(), [&](const T &t) { return t.id == id; }), timers.end());
        return timers.size() != n;
    }
    bool unregisterTimers(QObject *o) override {
        auto n = timers.size();
        timers.erase(std::remove_if(timers.begin(), timers.end(), [&](const T &t) { return t.obj == o; }), timers.end());
        return timers.size() != n;
    }
    QList<TimerInfo> registeredTimers(QObject *o) const override {
        QList<TimerInfo> r;
        for (auto &t : timers) if (t.obj == o) r << TimerInfo(t.id, int(t.interval), t.type);
        return r;
    }
    int remainingTime(int id) override {
        for (auto &t : timers) if (t.id == id) return int(std::max<qint64>(0, t.deadline - vt::now()));
        return -1;
    }
    void wakeUp() override { woken = true; }
    void interrupt() override { interrupted = true; cv.wakeAll(); }
};

class Sender : public QObject {
    Q_OBJECT
Q_SIGNALS:
    void fired(int n);
};

struct HopSc : Scenario {
    int n, nt;
    std::vector<QThread *> threads;       // [0] main
    std::vector<CtlDispatcher *> disp;
    std::vector<Sender *> senders;        // [i] lives in thread i
    QPromise<int> promise;
    std::vector<Gate> gates;
    std::vector<QJsonObject> cmds;
    std::vector<int> busy;
    std::vector<QCoro::Task<>> keep;

    explicit HopSc(const QJsonObject &i) : n(num(i, "n")), nt(num(i, "t")), gates(n + 1), cmds(n + 1), busy(n + 1) {
        promise.start();
        for (int t = 0; t <= nt; ++t) {
            threads.push_back(t ? new QThread : QThread::currentThread());
            disp.push_back(t ? new CtlDispatcher : nullptr);
            if (t) threads[t]->setEventDispatcher(disp[t]);
            senders.push_back(new Sender);
            if (t) senders[t]->moveToThread(threads[t]);
        }
        for (int c = 1; c <= n; ++c) keep.push_back(coro(this, c));
    }
    int here() const {
        for (size_t t = 0; t < threads.size(); ++t) if (threads[t] == QThread::currentThread()) return int(t);
        return -1;
    }
    static QCoro::Task<> coro(HopSc *sc, int c) {
        for (;;) {
            co_await sc->gates[c];
            sc->busy[c] = 1;
            const auto l = sc->cmds[c];
            const auto k = str(l, "k");
            const int o = num(l, "o");
            if (str(l, "a") == S("Move")) co_await QCoro::moveToThread(sc->threads[num(l, "t")]);
            else if (k == S("sig")) co_await qCoro(sc->senders[o], &Sender::fired);
            else if (k == S("timed")) co_await qCoro(sc->senders[o], &Sender::fired, std::chrono::milliseconds(Unit));
            else if (k == S("fut")) co_await sc->promise.future();
            else if (k == S("sleep")) co_await QCoro::sleepFor(std::chrono::milliseconds(Unit));
            sc->busy[c] = 0;
            ev(QJsonObject{{S("e"), S("on")}, {S("c"), c}, {S("t"), sc->here()}});
        }
    }
    void on(int t, std::function<void()> f) {
        if (t) disp[t]->exec(std::move(f));
        else f();
    }
    void startThread(int t) {
        threads[t]->start();
        disp[t]->waitEntered();
    }
    bool upT(int t) const { return t == 0 || disp[t]->entered; }
    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        const int c = num(l, "c"), t = num(l, "t");
        if (a == S("Move") || a == S("Await")) {
            cmds[c] = l;
            const int at = num(l, "at");
            spotsLeft = at;
            if (at) midStep = [this, t] { startThread(t); };
            on(num(l, "loc"), [this, c] { gates[c].open(); });
            spotsLeft = 0;
            spot();
        } else if (a == S("Emit")) on(num(l, "y"), [this, o = num(l, "o")] { Q_EMIT senders[o]->fired(1); });
        else if (a == S("Finish")) on(num(l, "y"), [this] { promise.addResult(1); promise.finish(); });
        else if (a == S("Start")) startThread(t);
        else if (a == S("Run")) { if (t) disp[t]->exec([this, t] { disp[t]->drain(); }); }
        else if (a == S("SettleAll")) {
            jump(Unit);
            const auto ord = str(l, "ord");
            for (bool any = true; any;) {
                any = false;
                for (QChar ch : ord) {
                    const int x = ch.digitValue();
                    if (x > nt || !upT(x)) continue;
                    if (x) disp[x]->exec([&] { any |= disp[x]->drain(); });
                    else any |= QCoreApplication::eventDispatcher()->processEvents(QEventLoop::AllEvents);
                }
            }
        }
    }
    QJsonObject obs() override {
        QJsonArray b;
        for (int c = 1; c <= n; ++c) b.append(busy[c]);
        return {{S("st"), b}};
    }
};

} // namespace
#include "threadhop.moc"

int main(int argc, char **argv) {
    return run(argc, argv, [](const QJsonObject &i) -> std::unique_ptr<Scenario> { return std::make_unique<HopSc>(i); });
}
