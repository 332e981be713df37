// Conformance driver for specs/Process.tla: a QProcess whose state the specification sets, or real ones.
#include "vt.h"
#include <QProcess>
#include <QCoro/QCoroTask>
#include <QCoro/QCoroProcess>

using namespace vt;

namespace {

constexpr int Unit = 40;

struct FakeProcess : QProcess {
    void set(QProcess::ProcessState s) { setProcessState(s); }
    void emitStarted() {
        void *args[] = {nullptr};
        const auto &mo = QProcess::staticMetaObject;
        const int m = mo.indexOfSignal("started()");
        QMetaObject::activate(this, &mo, m - mo.methodOffset(), args);
    }
};

struct ProcessSc : Scenario {
    FakeProcess p;
    bool real, ref;
    bool stopping = false;
    std::vector<int> waiting;
    std::vector<QCoro::Task<>> keep;

    explicit ProcessSc(const QJsonObject &i) : real(flag(i, "real")), ref(flag(i, "ref")), waiting(num(i, "n") + 1) {
        if (real) {
            p.setProgram(S("cat"));
            ioSettle([this] {
                if (p.state() == QProcess::NotRunning) stopping = false;
                return p.state() != QProcess::Starting && !stopping;
            });
        }
    }
    ~ProcessSc() override { if (!real) p.set(QProcess::NotRunning); }

    static std::chrono::milliseconds ms(int to) { return std::chrono::milliseconds(to == 99 ? -1 : to * Unit); }
    static void done(ProcessSc *sc, int w, bool r) {
        sc->waiting[w] = 0;
        ev(QJsonObject{{S("e"), S("done")}, {S("w"), w}, {S("r"), r}});
    }
    static QCoro::Task<> waiter(ProcessSc *sc, int w, QString k, int to) {
        sc->waiting[w] = 1;
        bool r = false;
        if (k == S("started")) {
            if (to == Dflt) r = co_await qCoro(sc->p).waitForStarted();
            else if (sc->ref) r = co_await LATER(qCoro(sc->p), waitForStarted(ms(to)));
            else r = co_await LATER(qCoro(&sc->p), waitForStarted(to == 99 ? -1 : to * Unit));
        } else {
            if (to == Dflt) r = co_await qCoro(sc->p).waitForFinished();
            else if (sc->ref) r = co_await LATER(qCoro(sc->p), waitForFinished(to == 99 ? -1 : to * Unit));
            else r = co_await LATER(qCoro(&sc->p), waitForFinished(ms(to)));
        }
        done(sc, w, r);
    }
    QIODevice::OpenMode mode() const { return ref ? QIODevice::ReadWrite : QIODevice::ReadWrite | QIODevice::Text; }
    //! what has been started is what was asked for
    void check(const QString &prog, const QStringList &args, int to) {
        if (p.program() != prog || p.arguments() != args) ev("wrong program", p.program());
        if (p.isOpen() && p.openMode() != (to == Dflt ? QIODevice::ReadWrite : mode())) ev("wrong mode", QString::number(p.openMode()));
    }
    static QCoro::Task<> starter(ProcessSc *sc, int w, QString how, bool good, int to) {
        sc->waiting[w] = 1;
        const QString prog = good ? S("cat") : S("/nonexistent/program");
        const QStringList args(S("-"));
        bool r = false;
        if (how == S("args")) {
            const bool idle = sc->p.state() == QProcess::NotRunning;
            auto t = to == Dflt ? qCoro(sc->p).start(prog, args) : qCoro(&sc->p).start(prog, args, sc->mode(), ms(to));
            if (idle) sc->check(prog, args, to);
            r = co_await t;
        }
        else {
            if (sc->p.state() == QProcess::NotRunning) {
                sc->p.setProgram(prog);
                sc->p.setArguments({});
            }
            const bool idle = sc->p.state() == QProcess::NotRunning;
            auto t = to == Dflt ? qCoro(&sc->p).start() : qCoro(sc->p).start(sc->mode(), ms(to));
            if (idle) sc->check(prog, {}, to);
            r = co_await t;
        }
        done(sc, w, r);
    }
    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        const int w = num(l, "w");
        if (a == S("Await")) keep.push_back(waiter(this, w, str(l, "k"), num(l, "to")));
        else if (a == S("Start")) keep.push_back(starter(this, w, str(l, "how"), flag(l, "good"), num(l, "to")));
        else if (a == S("Launch")) p.set(QProcess::Starting);
        else if (a == S("Up")) { p.set(QProcess::Running); p.emitStarted(); }
        else if (a == S("Fail")) { p.set(QProcess::NotRunning); Q_EMIT p.errorOccurred(QProcess::FailedToStart); }
        else if (a == S("Finish")) {
            const bool crash = flag(l, "crash");
            if (crash) Q_EMIT p.errorOccurred(QProcess::Crashed);
            p.set(QProcess::NotRunning);
            Q_EMIT p.finished(crash ? 9 : 0, crash ? QProcess::CrashExit : QProcess::NormalExit);
        } else if (a == S("Stop")) {
            stopping = true;
            if (str(l, "how") == S("kill")) p.kill();
            else p.closeWriteChannel();
        } else if (a == S("Settle")) {
            if (str(l, "first") == S("t")) timersFirst();
            jump(num(l, "d") * Unit);
        }
    }
    QJsonObject obs() override {
        QJsonArray c;
        for (size_t i = 1; i < waiting.size(); ++i) c.append(waiting[i]);
        return {{S("wait"), c}, {S("st"), int(p.state())}};
    }
};

} // namespace

int main(int argc, char **argv) {
    return run(argc, argv, [](const QJsonObject &i) -> std::unique_ptr<Scenario> { return std::make_unique<ProcessSc>(i); });
}
