// Shared by the drivers of specs/Read.tla and specs/Write.tla: D is a device with feed(), flush(),
// endStream(), closeStream() and `out`.
#pragma once
#include "vt.h"
#include <QIODevice>
#include <QCoro/QCoroTask>
#include <QCoro/QCoroIODevice>

using namespace vt;

constexpr int Unit = 40;

template<typename D>
struct IoSc : Scenario {
    QPointer<D> dev;
    int arrived = 0;
    QByteArray outKept;
    std::vector<int> waiting;
    std::vector<QCoro::Task<>> keep;
    bool ptr, write;

    explicit IoSc(const QJsonObject &i) : dev(new D(i)), waiting(num(i, "n") + 1), ptr(flag(i, "ptr")), write(str(i, "spec") == S("write")) {}

    static std::chrono::milliseconds ms(int to) { return std::chrono::milliseconds(to == 99 ? -1 : to * Unit); }
    static QJsonArray codes(const QByteArray &b) {
        QJsonArray a;
        for (char c : b) a.append(c == '\n' ? 0 : c == '\0' ? 1 : c == '\xff' ? 2 : c - 32);
        return a;
    }
    static char readByte(int i) { return i % 3 == 0 ? '\n' : i == 1 ? '\0' : i == 2 ? '\xff' : char(32 + i); }
    static char writeByte(qsizetype i) { return i == 0 ? '\0' : i == 2 ? '\xff' : char(33 + i); }
    static QCoro::Task<> reader(IoSc *sc, int w, QString k, int n, int to) {
        sc->waiting[w] = 1;
        D *d = sc->dev.data();
        if (k == S("ready")) {
            bool r = false;
            if (sc->ptr) r = co_await LATER(qCoro(d), waitForReadyRead(ms(to)));
            else r = co_await LATER(qCoro(*d), waitForReadyRead(to == 99 ? -1 : to * Unit));
            sc->waiting[w] = 0;
            ev(QJsonObject{{S("e"), S("ready")}, {S("w"), w}, {S("r"), r}});
            co_return;
        }
        QByteArray b;
        if (k == S("all") && to == 99 && sc->ptr) b = co_await LATER(qCoro(d), readAll());
        else if (k == S("read") && to == 99 && !sc->ptr) b = co_await LATER(qCoro(d), read(n));
        else if (k == S("line") && to == 99 && n == 0 && !sc->ptr) b = co_await LATER(qCoro(*d), readLine());
        else if (k == S("line") && to == 99 && sc->ptr) b = co_await LATER(qCoro(d), readLine(n));
        else if (k == S("all") && sc->ptr) b = co_await LATER(qCoro(d), readAll(ms(to)));
        else if (k == S("all")) b = co_await LATER(qCoro(*d), readAll(ms(to)));
        else if (k == S("read")) b = co_await LATER(qCoro(d), read(n, ms(to)));
        else if (k == S("line")) b = co_await LATER(qCoro(*d), readLine(n, ms(to)));
        else if (k == S("direct")) {
            if constexpr (requires { D::noDirect; }) { abort(); }
            else if (sc->ptr) b = co_await static_cast<typename D::Base *>(d);
            else b = co_await static_cast<typename D::Base &>(*d);
        }
        sc->waiting[w] = 0;
        ev(QJsonObject{{S("e"), S("read")}, {S("w"), w}, {S("b"), codes(b)}});
    }
    static QCoro::Task<> writer(IoSc *sc, int w, QByteArray data) {
        sc->waiting[w] = 1;
        const auto r = co_await LATER(qCoro(sc->dev.data()), write(data));
        sc->waiting[w] = 0;
        ev(QJsonObject{{S("e"), S("done")}, {S("w"), w}, {S("r"), r}});
    }
    static QCoro::Task<> bytesWaiter(IoSc *sc, int w, int to) {
        sc->waiting[w] = 1;
        std::optional<qint64> r;
        if (w == 1) r = co_await LATER(qCoro(sc->dev.data()), waitForBytesWritten(ms(to)));
        else r = co_await LATER(qCoro(*sc->dev), waitForBytesWritten(to == 99 ? -1 : to * Unit));
        sc->waiting[w] = 0;
        ev(QJsonObject{{S("e"), S("done")}, {S("w"), w}, {S("r"), r ? QJsonValue(*r) : QJsonValue(-1)}});
    }
    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        const int w = num(l, "w"), n = num(l, "n");
        if (a == S("Await")) keep.push_back(reader(this, w, str(l, "k"), n, num(l, "to")));
        else if (a == S("Feed")) {
            QByteArray b;
            for (int i = 0; i < n; ++i) b += readByte(++arrived);
            dev->feed(b);
        } else if (a == S("Write")) {
            QByteArray b;
            for (int i = 0; i < n; ++i) b += writeByte(dev->out.size() + i);
            keep.push_back(writer(this, w, b));
        } else if (a == S("WaitBytes")) keep.push_back(bytesWaiter(this, w, num(l, "to")));
        else if (a == S("Flush")) dev->flush(n);
        else if (a == S("Close")) dev->closeStream();
        else if (a == S("Reopen")) { if constexpr (requires { dev->reopen(true); }) dev->reopen(str(l, "m") == S("rw")); }
        else if (a == S("End")) dev->endStream();
        else if (a == S("Destroy")) { outKept = dev->out; delete dev.data(); }
        else if (a == S("Settle")) {
            if (str(l, "first") == S("t")) timersFirst();
            jump(num(l, "d") * Unit);
        }
    }
    QJsonObject obs() override {
        QJsonArray c;
        for (size_t i = 1; i < waiting.size(); ++i) c.append(waiting[i]);
        if (!write) return {{S("wait"), c}, {S("left"), dev ? dev->bytesAvailable() : 0}};
        const QByteArray &out = dev ? dev->out : outKept;
        bool ok = true;
        for (int i = 0; i < out.size(); ++i) ok = ok && out[i] == writeByte(i);
        return {{S("wait"), c}, {S("acc"), out.size()}, {S("ok"), ok ? 1 : 0}};
    }
};
