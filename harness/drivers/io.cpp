// Conformance driver for specs/Read.tla and specs/Write.tla on a QIODevice.
#include "io.h"
#include <QProcess>
#include <QCoro/QCoroProcess>

namespace {

//! a sequential device driven by the specification
struct FakeDevice : QIODevice {
    using Base = FakeDevice;
    QByteArray in, out;
    qint64 pending = 0;
    int room;
    QString mode;
    explicit FakeDevice(const QJsonObject &i) : room(num(i, "room", 1000)), mode(str(i, "mode")) {
        open(flag(i, "unbuffered") ? QIODevice::ReadWrite | QIODevice::Unbuffered : QIODevice::ReadWrite);
    }
    ~FakeDevice() override { close(); }
    bool isSequential() const override { return true; }
    qint64 bytesAvailable() const override { return isOpen() ? QIODevice::bytesAvailable() + in.size() : 0; }
    qint64 bytesToWrite() const override { return pending; }
    qint64 readData(char *d, qint64 n) override {
        n = std::min<qint64>(n, in.size());
        memcpy(d, in.constData(), n);
        in.remove(0, n);
        return n;
    }
    qint64 writeData(const char *d, qint64 n) override {
        n = std::min<qint64>(n, room);
        out.append(d, n);
        if (mode == S("sync")) { if (room % 2) Q_EMIT bytesWritten(n); }
        else pending += n;
        return n;
    }
    void feed(const QByteArray &b) { in += b; Q_EMIT readyRead(); }
    void flush(int n) { pending -= n; Q_EMIT bytesWritten(n); }
    void endStream() { Q_EMIT readChannelFinished(); }
    void closeStream() { close(); }
    void reopen(bool readable) {
        close();
        in.clear();
        open(readable ? QIODevice::ReadWrite : QIODevice::WriteOnly);
    }
};

//! a process' streams; the specification says what it prints and reads, and when it ends
struct FakeProc : QProcess {
    using Base = QProcess;
    QByteArray in, out;
    qint64 pending = 0;
    QString mode;
    explicit FakeProc(const QJsonObject &i) : mode(str(i, "proc")) {
        QIODevice::open(flag(i, "unbuffered") ? QIODevice::ReadWrite | QIODevice::Unbuffered : QIODevice::ReadWrite);
        to(Starting);
        if (mode != S("fails")) to(Running);
    }
    ~FakeProc() override { closeStream(); }
    void to(ProcessState s) { setProcessState(s); }
    qint64 bytesAvailable() const override { return isOpen() ? QIODevice::bytesAvailable() + in.size() : 0; }
    qint64 bytesToWrite() const override { return pending; }
    bool canReadLine() const override { return in.contains('\n') || QIODevice::canReadLine(); }
    qint64 readData(char *d, qint64 n) override {
        n = std::min<qint64>(n, in.size());
        memcpy(d, in.constData(), n);
        in.remove(0, n);
        return n;
    }
    qint64 writeData(const char *d, qint64 n) override {
        if (state() != NotRunning) out.append(d, n); // otherwise it stays in the buffer
        pending += n;
        return n;
    }
    void feed(const QByteArray &b) { in += b; Q_EMIT readyRead(); }
    void flush(int n) { pending -= n; Q_EMIT bytesWritten(n); }
    void endStream() {
        if (mode == S("fails")) {
            setErrorString(S("gone"));
            to(NotRunning);
            Q_EMIT errorOccurred(FailedToStart);
            return;
        }
        if (mode != S("late")) Q_EMIT readChannelFinished();
        if (mode == S("crash")) Q_EMIT errorOccurred(Crashed);
        to(NotRunning);
        if (mode == S("late")) Q_EMIT readChannelFinished();
        Q_EMIT finished(1, mode == S("crash") ? CrashExit : NormalExit);
    }
    void closeStream() {
        if (!isOpen()) return;
        Q_EMIT aboutToClose();
        pending = 0;
        if (state() != NotRunning) endStream();
        QIODevice::close();
    }
};

//! a real process that prints what it is given
struct RealProc : QProcess {
    using Base = QProcess;
    QByteArray out;
    explicit RealProc(const QJsonObject &) {
        start(S("cat"), {});
        if (!waitForStarted(10000)) ::abort();
    }
    ~RealProc() override { closeStream(); }
    void feed(const QByteArray &b) {
        const auto wanted = bytesAvailable() + b.size();
        write(b);
        while (bytesAvailable() < wanted) if (!waitForReadyRead(10000)) ::abort();
    }
    void flush(int) {}
    void endStream() {
        closeWriteChannel();
        if (!waitForFinished(10000)) ::abort();
    }
    void closeStream() { close(); }
};

} // namespace

int main(int argc, char **argv) {
    return run(argc, argv, [](const QJsonObject &i) -> std::unique_ptr<Scenario> {
        if (str(i, "proc") == S("real")) return std::make_unique<IoSc<RealProc>>(i);
        if (i.contains(S("proc"))) return std::make_unique<IoSc<FakeProc>>(i);
        return std::make_unique<IoSc<FakeDevice>>(i);
    });
}
