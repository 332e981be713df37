// Conformance driver for specs/AsyncGenerator.tla.
#include "vt.h"
#include "payload.h"
#include <QCoro/QCoroAsyncGenerator>
#include <QCoro/QCoroTask>

using namespace vt;
using namespace pl;

namespace {

void logc(const char *e, int c, QJsonValue v = QJsonValue::Undefined) {
    QJsonObject o{{S("e"), S(e)}, {S("c"), c}};
    if (!v.isUndefined()) o[S("v")] = v;
    ev(o);
}
void logk(const char *e, int k, int c, QJsonValue v = QJsonValue::Undefined) {
    QJsonObject o{{S("e"), S(e)}, {S("k"), k}, {S("c"), c}};
    if (!v.isUndefined()) o[S("v")] = v;
    ev(o);
}

struct Guard {
    int c = 0;
    const char *what;
    Guard(int c, const char *w) : c(c), what(w) {}
    Guard(Guard &&o) noexcept : c(o.c), what(o.what) { o.c = 0; }
    ~Guard() { if (c) logc(what, c); }
};

template<typename V, typename X> void assign(X &x) {
    if constexpr (!std::is_const_v<X>) x = Tr<V>::make(Tr<V>::read(x) + 1000);
}

#define ELEM int
#define NS t_int
#include "asyncgenerator.inc"
#define ELEM QString
#define NS t_qstring
#include "asyncgenerator.inc"
#define ELEM Counted
#define NS t_counted
#include "asyncgenerator.inc"
#define ELEM MoveOnly
#define NS t_moveonly
#include "asyncgenerator.inc"
#define ELEM const QString
#define NS t_cqstring
#include "asyncgenerator.inc"
#define NO_TEMP
#define ELEM int &
#define NS t_intref
#include "asyncgenerator.inc"

} // namespace

int main(int argc, char **argv) {
    return run(argc, argv, [](const QJsonObject &i) -> std::unique_ptr<Scenario> {
        const auto t = str(i, "type");
        if (t == S("int")) return std::make_unique<t_int::Sc>(i);
        if (t == S("qstring")) return std::make_unique<t_qstring::Sc>(i);
        if (t == S("counted")) return std::make_unique<t_counted::Sc>(i);
        if (t == S("moveonly")) return std::make_unique<t_moveonly::Sc>(i);
        if (t == S("constqstring")) return std::make_unique<t_cqstring::Sc>(i);
        if (t == S("int&")) return std::make_unique<t_intref::Sc>(i);
        abort();
    });
}
