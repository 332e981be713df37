// Compiled only (checks/misc.py): each retrying macro, used as its documentation shows.
#include <QtTest>
#include <QCoro/QCoroTask>
#include <QCoro/QCoroTest>

QCoro::Task<> a() { QCORO_TRY_COMPARE(1, 1); }
QCoro::Task<> b() { QCORO_TRY_COMPARE_WITH_TIMEOUT(1, 1, 10); }
QCoro::Task<> c() { QCORO_TRY_VERIFY(true); }
QCoro::Task<> d() { QCORO_TRY_VERIFY_WITH_TIMEOUT(true, 10); }
QCoro::Task<> e() { QCORO_TRY_VERIFY2(true, "no"); }
QCoro::Task<> f() { QCORO_TRY_VERIFY2_WITH_TIMEOUT(true, "no", 10); }

int main() {
    const auto n = &a; (void)n; (void)&b; (void)&c; (void)&d; (void)&e; (void)&f;
}
