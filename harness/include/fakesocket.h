// Sockets whose state the specification sets; signals are emitted in Qt's order.
#pragma once
#include "io.h"
#include <QAbstractSocket>
#include <QHostAddress>
#include <QLocalSocket>
#include <private/qlocalsocket_p.h>
#include <QCoro/QCoroAbstractSocket>
#include <QCoro/QCoroLocalSocket>

//! the byte stream of a fake socket: Q is QAbstractSocket or QLocalSocket
template<typename Q>
struct FakeStream : Q {
    using Base = Q;
    QByteArray in, out;
    qint64 pending = 0;
    template<typename... A>
    explicit FakeStream(const QJsonObject &i, A... a) : Q(a...) {
        if (!flag(i, "closed")) QIODevice::open(flag(i, "unbuffered") ? QIODevice::ReadWrite | QIODevice::Unbuffered : QIODevice::ReadWrite);
    }
    qint64 bytesAvailable() const override { return this->isOpen() ? QIODevice::bytesAvailable() + in.size() : 0; }
    qint64 bytesToWrite() const override { return pending; }
    bool canReadLine() const override { return in.contains('\n') || QIODevice::canReadLine(); }
    qint64 readData(char *d, qint64 n) override {
        n = std::min<qint64>(n, in.size());
        memcpy(d, in.constData(), n);
        in.remove(0, n);
        return n;
    }
    qint64 readLineData(char *d, qint64 n) override { return QIODevice::readLineData(d, n); }
    qint64 writeData(const char *d, qint64 n) override {
        if (!this->up()) return -1;
        out.append(d, n);
        pending += n;
        return n;
    }
    virtual bool up() const = 0;
    void feed(const QByteArray &b) { in += b; Q_EMIT this->readyRead(); }
    void flush(int n) { pending -= n; Q_EMIT this->bytesWritten(n); }
};

struct FakeAbs : FakeStream<QAbstractSocket> {
    QPair<QString, int> dial; // what connectToHost() has to be called with
    OpenMode dialMode;
    NetworkLayerProtocol dialProtocol = AnyIPProtocol;
    QString outcome;
    explicit FakeAbs(const QJsonObject &i) : FakeStream(i, QAbstractSocket::TcpSocket, nullptr) {
        if (!flag(i, "closed")) setSocketState(QAbstractSocket::ConnectedState);
    }
    ~FakeAbs() override {
        if (state() != UnconnectedState) {
            setSocketState(ClosingState);
            close();
        }
    }
    bool up() const override { return state() == ConnectedState; }
    void to(QAbstractSocket::SocketState s) {
        setSocketState(s);
        Q_EMIT stateChanged(s);
    }
    void goLook() { to(HostLookupState); }
    void goConn() { to(ConnectingState); }
    void goUp() {
        setOpenMode(ReadWrite);
        to(ConnectedState);
        Q_EMIT connected();
    }
    void goFail() {
        setSocketError(ConnectionRefusedError);
        to(UnconnectedState);
        Q_EMIT errorOccurred(ConnectionRefusedError);
    }
    void goClosing() { to(ClosingState); }
    void hangup(bool error) {
        if (error) {
            setSocketError(RemoteHostClosedError);
            Q_EMIT errorOccurred(RemoteHostClosedError);
        }
        disconnectFromHost();
    }
    void disconnectFromHost() override {
        if (state() == UnconnectedState) return;
        if (state() != ClosingState) to(ClosingState);
        pending = 0;
        to(UnconnectedState);
        Q_EMIT readChannelFinished();
        Q_EMIT disconnected();
    }
    void connectToHost(const QString &name, quint16 port, OpenMode mode, NetworkLayerProtocol protocol) override {
        if (dial != qMakePair(name, int(port)) || dialMode != mode || dialProtocol != protocol) ev("wrong connection", name);
        goLook();
        if (outcome == S("look")) return;
        goConn();
        if (outcome == S("unc")) goFail();
        else if (outcome == S("up")) goUp();
    }
    void close() override {
        QIODevice::close();
        disconnectFromHost();
    }
    void endStream() { disconnectFromHost(); }
    void closeStream() { close(); }
};

//! drives the socket inside QLocalSocket, whose state changes QLocalSocket follows
struct FakeLocal : FakeStream<QLocalSocket> {
    explicit FakeLocal(const QJsonObject &i) : FakeStream(i) {
        if (!flag(i, "closed")) to(QAbstractSocket::ConnectedState);
    }
    ~FakeLocal() override {
        if (state() != UnconnectedState) close();
    }
    bool up() const override { return state() == ConnectedState; }
    QLocalSocketPrivate *priv() const { return reinterpret_cast<QLocalSocketPrivate *>(d_ptr.data()); }
    void to(QAbstractSocket::SocketState s) {
        auto &u = priv()->unixSocket;
        u.setSocketState(s);
        Q_EMIT u.stateChanged(s);
    }
    void goLook() { abort(); }
    void goConn() { to(QAbstractSocket::ConnectingState); }
    void goUp() {
        setOpenMode(ReadWrite);
        to(QAbstractSocket::ConnectedState);
        Q_EMIT connected();
    }
    void goFail() {
        Q_EMIT errorOccurred(ServerNotFoundError);
        to(QAbstractSocket::UnconnectedState);
    }
    void goClosing() { to(QAbstractSocket::ClosingState); }
    void hangup(bool error) {
        if (error) Q_EMIT errorOccurred(PeerClosedError);
        leave();
    }
    void leave() {
        if (state() == UnconnectedState) return;
        const bool was = state() == ConnectedState || state() == ClosingState;
        if (state() != ClosingState) to(QAbstractSocket::ClosingState);
        pending = 0;
        to(QAbstractSocket::UnconnectedState);
        Q_EMIT readChannelFinished();
        if (was) Q_EMIT disconnected();
    }
    void close() override {
        QIODevice::close();
        leave();
    }
    void endStream() { leave(); }
    void closeStream() { close(); }
};
