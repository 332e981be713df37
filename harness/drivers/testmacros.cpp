// Conformance driver for specs/TestMacros.tla: a test coroutine inside a real QTest::qExec().
#include "vt.h"
#include <QtTest>
#include <private/qabstracttestlogger_p.h>
#include <private/qtestlog_p.h>
#include <private/qtestresult_p.h>
#include <QCoro/QCoroTask>
#include <QCoro/QCoroTest>
#include <QTimer>

#ifndef QCORO_TRY_LOOP_IMPL // known finding: used by the QCORO_TRY_* macros, defined nowhere; this is what is meant
#define QCORO_TRY_LOOP_IMPL QTRY_LOOP_IMPL
#endif

using namespace vt;

//! sleeping takes virtual time
extern "C" int nanosleep(const struct timespec *ts, struct timespec *) {
    vt::jump(ts->tv_sec * 1000 + ts->tv_nsec / 1000000);
    return 0;
}

namespace {

struct Logger : QAbstractTestLogger {
    std::vector<QString> incidents;
    Logger() : QAbstractTestLogger("/dev/null") {}
    void enterTestFunction(const char *) override {}
    void leaveTestFunction() override {}
    void addIncident(IncidentTypes t, const char *, const char *, int) override {
        incidents.push_back(t == Skip ? S("skip") : t == Pass ? S("pass") : t == XFail ? S("xfail") : t == Fail ? S("fail") : t == XPass ? S("xpass") : S("other"));
    }
    void addBenchmarkResult(const QBenchmarkResult &) override {}
    void addMessage(QtMsgType, const QMessageLogContext &, const QString &) override {}
    void addMessage(MessageTypes, const QString &, const char *, int) override {}
};

struct Base : std::runtime_error { using runtime_error::runtime_error; };
struct Derived : Base { using Base::Base; };

struct MacroSc;
class Test : public QObject {
    Q_OBJECT
public:
    MacroSc *sc;
private Q_SLOTS:
    void macros_data() {
        QTest::addColumn<int>("elem");
        QTest::newRow("row") << 7;
    }
    void macros();
};

struct MacroSc : Scenario {
    Test test;
    Logger *logger = nullptr;
    Gate gate;
    QString m, c;
    std::optional<QCoro::Task<>> task;
    int evals = 0;
    bool on = true, holds = false;
    qint64 holdsAt = -1, from = 0;
    int timeout = 0;
    explicit MacroSc(const QJsonObject &) { virtualClock(); test.sc = this; }

    bool cond() { ++evals; return holds; }
    int value() { ++evals; return holds ? 7 : 8; }
    QString text() { ++evals; return holds ? S("seven") : S("eight"); }
    const char *message() { ++evals; return "message"; }
    void raise() {
        ++evals;
        if (c == S("right")) throw Base("right");
        if (c == S("derived")) throw Derived("derived");
        if (c == S("other")) throw std::logic_error("other");
        if (c == S("nonstd")) throw 1;
    }
    static QCoro::Task<> coro(MacroSc *s) {
        struct Left { MacroSc *s; ~Left() { s->on = false; } } left{s};
        for (;;) {
            co_await s->gate;
            const auto &m = s->m;
            if (m == S("verify")) QCORO_VERIFY(s->cond());
            else if (m == S("verify2")) QCORO_VERIFY2(s->cond(), "no");
            else if (m == S("compareint")) QCORO_COMPARE(s->value(), 7);
            else if (m == S("comparestr")) QCORO_COMPARE(s->text(), S("seven"));
            else if (m == S("comparerhs")) QCORO_COMPARE(7, s->value());
            else if (m == S("test")) QCORO_TEST(s->value(), "elem");
            else if (m == S("fail")) QCORO_FAIL(s->message());
            else if (m == S("skip")) QCORO_SKIP(s->message());
            else if (m == S("expect")) {
                if (s->c == S("Continue")) QCORO_EXPECT_FAIL("", s->message(), Continue);
                else QCORO_EXPECT_FAIL("", s->message(), Abort);
            } else if (m == S("throws")) QCORO_VERIFY_THROWS_EXCEPTION(Base, s->raise());
            else if (m == S("thrown")) QCORO_VERIFY_EXCEPTION_THROWN(s->raise(), Base);
            else if (m == S("tryverify")) { QCORO_TRY_VERIFY(s->cond()); }
            else if (m == S("tryverifyt")) { QCORO_TRY_VERIFY_WITH_TIMEOUT(s->cond(), 200); }
            else if (m == S("tryverify2")) { QCORO_TRY_VERIFY2(s->cond(), "no"); }
            else if (m == S("tryverify2t")) { QCORO_TRY_VERIFY2_WITH_TIMEOUT(s->cond(), "no", 200); }
            else if (m == S("trycompare")) { QCORO_TRY_COMPARE(s->value(), 7); }
            else if (m == S("trycomparet")) { QCORO_TRY_COMPARE_WITH_TIMEOUT(s->text(), S("seven"), 200); }
            else ::abort();
        }
    }
    void step(const QJsonObject &l) override {
        if (str(l, "a") != S("Do")) ::abort();
        if (!logger) {
            // the driver goes on inside the test function
            first = l;
            static const QStringList args{S("test"), S("-o"), S("/dev/null,txt"), S("-nocrashhandler")};
            QTest::qExec(&test, args);
            ::abort();
        }
        perform(l);
    }
    QJsonObject first;
    void perform(const QJsonObject &l) {
        m = str(l, "m");
        c = str(l, "c");
        evals = 0;
        logger->incidents.clear();
        const bool isTry = m.startsWith(S("try"));
        timeout = isTry ? (m.endsWith(S("t")) && m != S("tryt") ? 200 : 5000) : 0;
        from = now();
        holds = c == S("holds") || c == S("now");
        holdsAt = holds ? from : -1;
        QTimer t;
        t.setSingleShot(true);
        QObject::connect(&t, &QTimer::timeout, [this] { holds = true; holdsAt = now(); });
        if (c == S("soon")) t.start(timeout / 2);
        if (c == S("late")) t.start(timeout * 3 / 2);
        gate.open();
        const qint64 at = now();
        bool ontime = true;
        if (!isTry) ontime = at == from;
        else if (c == S("now")) ontime = at - from < 50;
        else if (c == S("soon")) ontime = holdsAt >= 0 && at - holdsAt <= 100;
        else ontime = at - from >= timeout;
        QString inc = S("none");
        if (logger->incidents.size() == 1) inc = logger->incidents[0];
        else if (!logger->incidents.empty()) inc = S("several");
        ev(QJsonObject{{S("e"), S("macro")}, {S("inc"), inc}, {S("cont"), on}, {S("evals"), evals}, {S("ontime"), ontime}});
    }
    void started() {
        logger = new Logger;
        QTestLog::addLogger(logger);
        task.emplace(coro(this));
        perform(first);
        QEventLoop loop;
        loop.exec();
    }
    QJsonObject obs() override { return {{S("st"), on ? S("on") : S("left")}, {S("failed"), logger && QTest::currentTestFailed()}}; }
};

void Test::macros() { sc->started(); }

} // namespace

int main(int argc, char **argv) {
    return run(argc, argv, [](const QJsonObject &i) { return std::make_unique<MacroSc>(i); });
}
#include "testmacros.moc"
