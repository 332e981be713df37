#include "vt.h"

#include <QCoreApplication>
#include <QSocketNotifier>
#include <QThread>
#include <QMutex>
#include <QElapsedTimer>

#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/eventfd.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <climits>


#include <sys/syscall.h>
#include <time.h>

namespace vt {

static QJsonArray g_events;
static qint64 g_now = 1000000;
static qint64 g_target = 1000000;
static bool g_timersFirst = false;
static std::unique_ptr<Scenario> g_scenario;
static Factory g_factory;
static bool g_reportPending = false;
static std::string g_inbuf;
static int g_warnings = 0;
static std::function<bool()> g_quiet;
static bool g_io = false;
static int g_budget = 0;
static int g_nesting = 0;
static bool g_settling = false, g_nest = false;

static void writeLine(const QByteArray &b) {
    QByteArray o = b + '\n';
    const char *p = o.constData();
    ssize_t n = o.size();
    while (n > 0) {
        ssize_t w = ::write(1, p, n);
        if (w <= 0) _exit(4);
        p += w;
        n -= w;
    }
}

static bool readLine(std::string &line) {
    for (;;) {
        auto nl = g_inbuf.find('\n');
        if (nl != std::string::npos) {
            line = g_inbuf.substr(0, nl);
            g_inbuf.erase(0, nl + 1);
            return true;
        }
        char buf[65536];
        ssize_t r = ::read(0, buf, sizeof buf);
        if (r <= 0) return false;
        g_inbuf.append(buf, r);
    }
}

void ev(const QJsonValue &e) {
    g_events.append(e);
    // where it is asked for, whoever is called back runs an event loop of its own
    if (!g_nest || !g_settling || g_nesting == 3 || QThread::currentThread() != qApp->thread()) return;
    ++g_nesting;
    for (int i = 0; i < 10; ++i) QCoreApplication::processEvents();
    --g_nesting;
}
qint64 now() { return g_now; }
void advance(qint64 ms) { g_target += ms; }
void jump(qint64 ms) { g_now += ms; g_target = std::max(g_target, g_now); }
static bool g_virtualClock = false;
void virtualClock() { g_virtualClock = true; }
void timersFirst() { g_timersFirst = true; }
void ioSettle(std::function<bool()> quiet) { g_io = true; g_quiet = std::move(quiet); }
int warnings() { return g_warnings; }

static const char HANG[] = "{\"hang\":true}\n";
static void onAlarm(int) {
    (void)!::write(1, HANG, sizeof HANG - 1);
    _exit(7);
}

static void report() {
    QJsonObject r;
    r[QLatin1String("o")] = g_scenario->obs();
    r[QLatin1String("e")] = g_events;
    g_events = {};
    g_reportPending = false;
    alarm(0);
    writeLine(QJsonDocument(r).toJson(QJsonDocument::Compact));
}

//! Called when the loop is idle: report the pending step and read the next one.
static void idle() {
    if (g_reportPending) report();
    for (;;) {
        std::string line;
        if (!readLine(line) || line == "end") _exit(0);
        const auto label = QJsonDocument::fromJson(QByteArray::fromRawData(line.data(), line.size())).object();
        alarm(20);
        g_budget = 20000;
        g_reportPending = true;
        g_settling = false;
        g_scenario->step(label);
        g_settling = !label.value(QLatin1String("ns")).toBool();
        if (!g_settling) {
            if (g_reportPending) report();
            continue;
        }
        return; // settle, then report at the next idle
    }
}

class Dispatcher final : public QAbstractEventDispatcher {
public:
    struct T { int id; qint64 interval; Qt::TimerType type; QObject *obj; qint64 deadline; quint64 seq; quint64 uid; };
    std::vector<T> timers;
    std::vector<quint64> firing;
    quint64 seq = 0, uids = 0;
    std::vector<QSocketNotifier *> notifiers;
    std::atomic<bool> woken{false};
    std::atomic<bool> interrupted{false};
    int efd = ::eventfd(0, EFD_NONBLOCK);

    bool fireTimers() {
        std::vector<std::pair<int, quint64>> due;
        std::vector<T> sorted = timers;
        std::sort(sorted.begin(), sorted.end(), [](const T &a, const T &b) {
            return a.deadline != b.deadline ? a.deadline < b.deadline : a.seq < b.seq; });
        for (auto &t : sorted)
            if (t.deadline <= g_now) due.push_back({t.id, t.seq});
        bool any = false;
        for (auto &[id, sq] : due) {
            for (auto &t : timers) {
                if (t.id == id && t.seq == sq) {
                    if (std::find(firing.begin(), firing.end(), t.uid) != firing.end()) break; // as in Qt, not in its own handler
                    firing.push_back(t.uid);
                    t.deadline = g_now + t.interval;
                    t.seq = ++seq;
                    QTimerEvent e(id);
                    any = true;
                    QCoreApplication::sendEvent(t.obj, &e);
                    firing.pop_back();
                    break; // `timers` may have changed
                }
            }
        }
        return any;
    }
    bool pollSockets(int ms) {
        std::vector<pollfd> fds;
        std::vector<QPointer<QSocketNotifier>> ns;
        fds.push_back({efd, POLLIN, 0});
        for (auto *n : notifiers) {
            short e = n->type() == QSocketNotifier::Read ? POLLIN : n->type() == QSocketNotifier::Write ? POLLOUT : POLLPRI;
            fds.push_back({int(n->socket()), e, 0});
            ns.push_back(n);
        }
        if (::poll(fds.data(), fds.size(), ms) <= 0) return false;
        if (fds[0].revents) { quint64 x; (void)!::read(efd, &x, sizeof x); }
        bool any = fds[0].revents;
        for (size_t i = 0; i < ns.size(); ++i) {
            if (!fds[i + 1].revents || !ns[i] || !ns[i]->isEnabled()) continue;
            if (std::find(notifiers.begin(), notifiers.end(), ns[i].data()) == notifiers.end()) continue;
            QEvent e(QEvent::SockAct);
            QCoreApplication::sendEvent(ns[i], &e);
            any = true;
        }
        return any;
    }
    bool processEvents(QEventLoop::ProcessEventsFlags flags) override {
        interrupted = false;
        Q_EMIT awake();
        bool any = false;
        for (;;) {
            if (--g_budget == 0) { (void)!::write(1, HANG, sizeof HANG - 1); _exit(7); }
            bool pass = woken.exchange(false);
            if (g_timersFirst) {
                g_timersFirst = false;
                pass |= fireTimers();
            }
            QCoreApplication::sendPostedEvents();
            if (interrupted) return true;
            pass |= fireTimers();
            if (g_io && !(flags & QEventLoop::ExcludeSocketNotifiers)) pass |= pollSockets(0);
            any |= pass;
            if (interrupted) return true;
            if (woken) {  // something was posted meanwhile
                if (!(flags & QEventLoop::WaitForMoreEvents)) return true;
                continue;
            }
            if (pass) return true;
            if (!(flags & QEventLoop::WaitForMoreEvents)) return any;
            // idle
            if (g_now < g_target) {
                qint64 next = g_target;
                for (auto &t : timers) next = std::min(next, std::max(t.deadline, g_now));
                g_now = next;
                continue;
            }
            if (g_io && g_quiet && g_reportPending && !g_quiet()) {
                pollSockets(5);
                continue;
            }
            Q_EMIT aboutToBlock();
            idle();
            return true;
        }
    }
    void registerSocketNotifier(QSocketNotifier *n) override { notifiers.push_back(n); }
    void unregisterSocketNotifier(QSocketNotifier *n) override {
        notifiers.erase(std::remove(notifiers.begin(), notifiers.end(), n), notifiers.end());
    }
    //! Timers that aren't precise are as early as Qt allows: coarse ones by 5%, very coarse ones are rounded to seconds
    static qint64 early(qint64 interval, Qt::TimerType type) {
        if (type == Qt::PreciseTimer || interval <= 20) return 0;
        return type == Qt::VeryCoarseTimer || interval >= 20000 ? std::min<qint64>(interval, 500) : interval / 20;
    }
    void registerTimer(int id, qint64 interval, Qt::TimerType type, QObject *obj) override {
        timers.push_back({id, interval, type, obj, g_now + interval - early(interval, type), ++seq, ++uids});
    }
    bool unregisterTimer(int id) override {
        auto n = timers.size();
        timers.erase(std::remove_if(timers.begin(), timers.end(), [&](const T &t) { return t.id == id; }), timers.end());
        return timers.size() != n;
    }
    bool unregisterTimers(QObject *o) override {
        auto n = timers.size();
        timers.erase(std::remove_if(timers.begin(), timers.end(), [&](const T &t) { return t.obj == o; }), timers.end());
        return timers.size() != n;
    }
    QList<TimerInfo> registeredTimers(QObject *o) const override {
        QList<TimerInfo> l;
        for (auto &t : timers) if (t.obj == o) l << TimerInfo(t.id, int(t.interval), t.type);
        return l;
    }
    int remainingTime(int id) override {
        for (auto &t : timers) if (t.id == id) return int(std::max<qint64>(0, t.deadline - g_now));
        return -1;
    }
    void wakeUp() override {
        woken = true;
        quint64 one = 1;
        (void)!::write(efd, &one, sizeof one);
    }
    void interrupt() override { interrupted = true; wakeUp(); }
};

static Dispatcher *g_disp = nullptr;
int activeTimers() { return g_disp ? int(g_disp->timers.size()) : 0; }

static void onMessage(QtMsgType t, const QMessageLogContext &, const QString &msg) {
    if (t == QtDebugMsg || t == QtInfoMsg) return;
    ++g_warnings;
    if (t == QtFatalMsg) {
        fprintf(stderr, "FATAL: %s\n", qPrintable(msg));
        abort();
    }
    static const bool verbose = qEnvironmentVariableIsSet("VT_VERBOSE");
    if (verbose) fprintf(stderr, "msg: %s\n", qPrintable(msg));
}

static void onTerminate() {
    try {
        if (auto e = std::current_exception()) std::rethrow_exception(e);
        fprintf(stderr, "terminate without exception\n");
    } catch (const std::exception &e) {
        fprintf(stderr, "terminate: uncaught exception: %s\n", e.what());
    } catch (...) {
        fprintf(stderr, "terminate: uncaught non-std exception\n");
    }
    abort();
}

int run(int argc, char **argv, Factory factory, std::function<QCoreApplication *(int &, char **)> mkApp) {
    g_factory = std::move(factory);
    qInstallMessageHandler(onMessage);
    std::set_terminate(onTerminate);
    signal(SIGPIPE, SIG_IGN);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    g_disp = new Dispatcher;
    QCoreApplication::setEventDispatcher(g_disp);
    QCoreApplication *app = mkApp ? mkApp(argc, argv) : new QCoreApplication(argc, argv);
    for (;;) {
        std::string line;
        if (!readLine(line)) return 0;
        if (line.empty()) continue;
        fflush(nullptr);
        pid_t pid = ::fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            ::close(g_disp->efd);
            g_disp->efd = ::eventfd(0, EFD_NONBLOCK);
            signal(SIGALRM, onAlarm);
            alarm(30);
            g_budget = 20000;
            const auto init = QJsonDocument::fromJson(QByteArray(line.data(), line.size())).object();
            g_nest = flag(init, "nest");
            g_scenario = g_factory(init);
            g_reportPending = true; // the initial observation
            app->exec();
            // The application loop was quit by the code under test.
            writeLine("{\"quit\":true}");
            _exit(8);
        }
        g_inbuf.clear();
        int st = 0;
        ::waitpid(pid, &st, 0);
        QJsonObject o;
        o[QLatin1String("done")] = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
        writeLine(QJsonDocument(o).toJson(QJsonDocument::Compact));
    }
}

} // namespace vt

//! QDeadlineTimer and QElapsedTimer read the virtual clock (weak: a driver may have its own)
extern "C" __attribute__((weak)) int clock_gettime(clockid_t id, struct timespec *ts) {
    if (vt::g_virtualClock && (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_COARSE)) {
        ts->tv_sec = vt::g_now / 1000;
        ts->tv_nsec = vt::g_now % 1000 * 1000000;
        return 0;
    }
    return syscall(SYS_clock_gettime, id, ts);
}
