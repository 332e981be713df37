// Conformance driver for specs/Thread.tla: a QThread which takes each step when told, also in the middle
// of a call of the code under test (QThread's state queries are interposed).
#include "vt.h"
#include <QThread>
#include <QSemaphore>
#include <dlfcn.h>
#include <QCoro/QCoroTask>
#include <QCoro/QCoroThread>

using namespace vt;

namespace {
constexpr int Unit = 40;
QThread *watched = nullptr;
int spotsLeft = 0;                 // spots to pass before the thread makes its step
std::function<void()> midStep;

void spot() {
    if (!midStep || --spotsLeft > 0) return;
    auto f = std::move(midStep);
    midStep = nullptr;
    f();
}
bool query(const QThread *t, const char *sym) {
    static std::map<std::string, bool (*)(const QThread *)> real;
    auto &f = real[sym];
    if (!f) f = reinterpret_cast<bool (*)(const QThread *)>(dlsym(RTLD_NEXT, sym));
    const bool mine = t == watched && midStep;
    if (mine) spot();
    const bool r = f(t);
    if (mine) spot();
    return r;
}
} // namespace

bool QThread::isRunning() const { return query(this, "_ZNK7QThread9isRunningEv"); }
bool QThread::isFinished() const { return query(this, "_ZNK7QThread10isFinishedEv"); }

namespace {

struct Thr : QThread {
    bool holdStarted = false, holdFinished = false;
    QSemaphore held, go, inRun, leave;
    Thr() {
        // the first receivers: whoever waits for the signal gets it after these return
        QObject::connect(this, &QThread::started, this, [this] { if (holdStarted) { held.release(); go.acquire(); } }, Qt::DirectConnection);
        QObject::connect(this, &QThread::finished, this, [this] { if (holdFinished) { held.release(); go.acquire(); } }, Qt::DirectConnection);
    }
    void run() override { inRun.release(); leave.acquire(); }
    void begin(bool hold) {
        holdStarted = hold;
        start();
        if (hold) held.acquire();
        else inRun.acquire();
    }
    void endStart() { go.release(); inRun.acquire(); }
    void finish(bool hold) {
        holdFinished = hold;
        leave.release();
        if (hold) held.acquire();
        else wait();
    }
    void endFinish() { go.release(); wait(); }
};

struct ThreadSc : Scenario {
    Thr *t = new Thr;
    bool ref;
    std::vector<int> waiting;
    std::vector<QCoro::Task<>> keep;
    explicit ThreadSc(const QJsonObject &i) : ref(flag(i, "ref")), waiting(num(i, "n") + 1) { watched = t; }

    static std::chrono::milliseconds ms(int to) { return std::chrono::milliseconds(to == 99 ? -1 : to * Unit); }
    static QCoro::Task<> waiter(ThreadSc *sc, int w, QString k, int to) {
        sc->waiting[w] = 1;
        bool r = false;
        if (k == S("started")) {
            if (to == 99 && sc->ref) r = co_await LATER(qCoro(*sc->t), waitForStarted());
            else r = co_await LATER(qCoro(sc->t), waitForStarted(ms(to)));
        } else {
            if (to == 99 && !sc->ref) r = co_await LATER(qCoro(sc->t), waitForFinished());
            else r = co_await LATER(qCoro(*sc->t), waitForFinished(ms(to)));
        }
        sc->waiting[w] = 0;
        ev(QJsonObject{{S("e"), S("done")}, {S("w"), w}, {S("r"), r}});
    }
    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        const int w = num(l, "w");
        if (a == S("Await")) {
            const auto mid = str(l, "mid");
            spotsLeft = num(l, "at");
            if (mid == S("start")) midStep = [this] { t->begin(false); };
            else if (mid == S("finish")) midStep = [this] { t->finish(false); };
            else if (mid == S("startfinish")) midStep = [this] { t->begin(false); t->finish(false); };
            keep.push_back(waiter(this, w, str(l, "k"), num(l, "to")));
            spotsLeft = 0;
            spot();   // the call was over before
        } else if (a == S("Start")) t->begin(false);
        else if (a == S("BeginStart")) t->begin(true);
        else if (a == S("EndStart")) t->endStart();
        else if (a == S("Finish")) t->finish(false);
        else if (a == S("BeginFinish")) t->finish(true);
        else if (a == S("EndFinish")) t->endFinish();
        else if (a == S("Destroy")) { watched = nullptr; delete t; }
        else if (a == S("Settle")) {
            if (str(l, "first") == S("t")) timersFirst();
            jump(num(l, "d") * Unit);
        }
    }
    QJsonObject obs() override {
        QJsonArray c;
        for (size_t i = 1; i < waiting.size(); ++i) c.append(waiting[i]);
        return {{S("wait"), c}};
    }
};

} // namespace

int main(int argc, char **argv) {
    return run(argc, argv, [](const QJsonObject &i) -> std::unique_ptr<Scenario> { return std::make_unique<ThreadSc>(i); });
}
