// Conformance driver for specs/ImageProvider.tla
#include "vt.h"
#include <QImage>
#include <QQuickAsyncImageProvider>
#include <private/qquickimageprovider_p.h>
#include "qcoroimageprovider.h"

using namespace vt;

namespace {
struct TestTexture : QQuickTextureFactory {
    QImage img;
    QSGTexture *createTexture(QQuickWindow *) const override { return nullptr; }
    QSize textureSize() const override { return img.size(); }
    int textureByteCount() const override { return 0; }
    QImage image() const override { return img; }
};
}

//! needs no scene graph
QQuickTextureFactory *QQuickTextureFactory::textureFactoryForImage(const QImage &image) {
    if (image.isNull()) return nullptr;
    auto *f = new TestTexture;
    f->img = image;
    return f;
}

namespace {

struct Err : std::runtime_error { using runtime_error::runtime_error; };

struct Provider;
// what may be asked for, odd as it is: a size of which only one dimension is given, no size, ...
QSize sizeOf(int k) { return k == 2 ? QSize(40, -1) : k == 4 ? QSize(0, 0) : k == 5 ? QSize() : k == 6 ? QSize(0, 40) : QSize(k, 2 * k); }
QString idOf(int k) { return k == 2 ? QStringLiteral("") : k == 3 ? QString::fromUtf8("dir/a b?c=%20#\xc3\xa9") : QString::number(k); }
int indexOfSize(const QSize &s) { for (int k = 1; k < 9; ++k) if (s == sizeOf(k)) return k; return 99; }
int indexOfId(const QString &s) { for (int k = 1; k < 9; ++k) if (s == idOf(k)) return k; return 99; }
const char *const What = "no image \xe2\x82\xac";
struct Job {
    Gate gate;
    int how = 0; // 1: ok, 2: failed, 3: threw something odd, 4: returned a null image, 5: failed, not saying why
};
std::map<int, Job> jobs;
int current = 0;

struct Provider : QCoro::ImageProvider {
    QCoro::Task<QImage> asyncRequestImage(const QString &id, const QSize &size) override { return load(id, size, current); }
    static QCoro::Task<QImage> load(QString id, QSize size, int r) {
        if (!jobs[r].how) co_await jobs[r].gate;
        if (jobs[r].how == 2) throw Err(What);
        if (jobs[r].how == 3) throw 42;
        if (jobs[r].how == 5) throw Err("");
        if (jobs[r].how == 4) co_return QImage();
        const int k = indexOfSize(size);
        QImage img(k, 2 * k, QImage::Format_ARGB32);
        img.fill(QColor(indexOfId(id), 7, 9));
        co_return img;
    }
};

struct ImgSc : Scenario {
    Provider *p = new Provider;
    struct R { QPointer<QQuickImageResponse> o; bool gone = false, del = false; int n = 0; };
    std::map<int, R> rs;
    int n;
    explicit ImgSc(const QJsonObject &i) : n(num(i, "n")) {}
    ~ImgSc() override { delete p; }
    static int howOf(const QString &h) { return h == S("ok") ? 1 : h == S("failed") ? 2 : h == S("odd") ? 3 : h == S("mute") ? 5 : 4; }
    static bool isFinished(QQuickImageResponse *o) {
        return static_cast<QQuickImageResponsePrivate *>(QObjectPrivate::get(o))->finished.loadAcquire();
    }
    void step(const QJsonObject &l) override {
        const auto a = str(l, "a");
        const int r = num(l, "r");
        if (a == S("Request")) {
            const auto how = str(l, "how");
            current = r;
            jobs[r].how = how == S("later") ? 0 : howOf(how);
            auto *o = static_cast<QQuickAsyncImageProvider *>(p)->requestImageResponse(idOf(num(l, "id")), sizeOf(num(l, "size")));
            auto &x = rs[r];
            x.o = o;
            // already announced, or to be announced
            if (isFinished(o)) x.n = 1;
            QObject::connect(o, &QQuickImageResponse::finished, o, [this, r, o] {
                ++rs[r].n;
                if (jobs[r].gate.h || !isNow(r)) ev(QJsonObject{{S("e"), S("finished")}, {S("r"), r}, {S("v"), show(r)}});
                if (rs[r].del) { rs[r].gone = true; delete o; }
            });
            now[r] = how != S("later");
        } else if (a == S("End")) {
            jobs[r].how = howOf(str(l, "how"));
            rs[r].del = flag(l, "del");
            jobs[r].gate.open();
        } else if (a == S("Cancel")) rs[r].o->cancel();
        else if (a == S("Delete")) { delete rs[r].o.data(); rs[r].gone = true; }
        else if (a == S("ProviderGone")) delete std::exchange(p, nullptr);
    }
    std::map<int, bool> now;
    bool isNow(int r) { return now[r]; }
    QJsonArray show(int r) {
        const auto it = rs.find(r);
        if (it == rs.end()) return {-1, 0, 0, 0};
        auto &x = it->second;
        if (x.gone) return {-2, 0, 0, 0};
        if (!x.o) return {-3, 0, 0, 0};
        if (!isFinished(x.o)) return {0, 0, 0, x.o->errorString().isEmpty() ? 0 : 1};
        std::unique_ptr<QQuickTextureFactory> f(x.o->textureFactory());
        const QImage img = f ? f->image() : QImage();
        const int err = x.o->errorString().isEmpty() ? 0 : jobs[r].how != 2 || x.o->errorString() == QString::fromUtf8(What) ? 1 : 2;
        if (img.isNull()) return {x.n, 0, 0, err};
        const auto px = img.pixelColor(0, 0);
        if (img.height() != 2 * img.width() || px.green() != 7 || px.blue() != 9) return {x.n, -1, -1, err};
        return {x.n, px.red(), img.width(), err};
    }
    QJsonObject obs() override {
        QJsonArray a;
        for (int i = 1; i <= n; ++i) a.append(show(i));
        return {{S("resp"), a}};
    }
};

} // namespace

int main(int argc, char **argv) {
    return run(argc, argv, [](const QJsonObject &i) { return std::make_unique<ImgSc>(i); });
}
