// Equality, hashing, zero division and element-wise functions, bit-precise (all doubles).
#include "common.h"
#include <functional>

template <int N>
static Vec<double, N> mkv(const char *name) {
    Vec<double, N> v;
    for (int i = 0; i < N; i++) v[i] = sym_any((std::string(name) + std::to_string(i)).c_str());
    return v;
}
template <int N>
static void equality() {
    auto a = mkv<N>("a"), b = mkv<N>("b");
    bool e = a == b, n = a != b;
    bool want = true;
    for (int i = 0; i < N; i++) if (!(a[i] == b[i])) want = false;
    sym_check(e == want, "equality holds exactly when all components are equal");
    sym_check(n == !want, "inequality is the negation of equality");
    if (e) {
        sym_check(std::hash<Vec<double, N>>()(a) == std::hash<Vec<double, N>>()(b), "equal vectors have equal hash values");
        sym_check(b == a, "equality is symmetric");
        sym_reach("equal");
    } else sym_reach("different");
    sym_outi("e", e);
}
template <int N>
static void zeroDivision() {
    auto a = mkv<N>("a");
    int kind = sym_int("kind", 0, 3);
    bool zero = false;
    int r;
    if (kind < 2) {
        double s = sym_any("s");
        r = sym_try([&] { if (kind == 0) { auto c(a); c /= s; } else { auto c = a / s; (void)c; } });
        zero = s == 0.0;
    } else {
        auto b = mkv<N>("b");
        r = sym_try([&] { if (kind == 2) { auto c(a); c /= b; } else { auto c = a / b; (void)c; } });
        for (int i = 0; i < N; i++) if (b[i] == 0.0) zero = true;
    }
    sym_check(r == (zero ? 1 : 0), "division reports an error exactly when the divisor has a zero");
    sym_reach(zero ? "zero-division" : "division");
    sym_outi("r", r);
}
template <int N>
static void elementwise() {
    auto a = mkv<N>("a"), b = mkv<N>("b");
    for (int i = 0; i < N; i++) { sym_assume_eq(a[i], a[i]); sym_assume_eq(b[i], b[i]); }
    sym_note("element-wise functions: components are not NaN");
    int kind = sym_int("kind", 0, 2);
    if (kind == 0) {
        auto r = std::abs(a);
        for (int i = 0; i < N; i++) {
            sym_check(r[i] == a[i] || r[i] == -a[i], "absolute value is the value or its negation");
            sym_check(r[i] >= 0.0, "absolute value is non-negative");
        }
    } else {
        auto r = kind == 1 ? std::min(a, b) : std::max(a, b);
        for (int i = 0; i < N; i++) {
            sym_check(r[i] == a[i] || r[i] == b[i], "minimum/maximum picks a component of its arguments");
            if (kind == 1) sym_check(r[i] <= a[i] && r[i] <= b[i], "minimum is a lower bound");
            else sym_check(r[i] >= a[i] && r[i] >= b[i], "maximum is an upper bound");
        }
    }
    sym_reach("elementwise");
}
template <int N>
static void convert() {
    auto a = mkv<N>("a");
    for (int i = 0; i < N; i++) sym_assume_eq(a[i], a[i]);
    Eigen::Matrix<double, N, 1> e = a;
    Vec<double, N> b(e), c;
    c = e;
    Vec<double, N> d(a);
    for (int i = 0; i < N; i++) {
        sym_check(e(i) == a[i], "conversion to the linear-algebra type");
        sym_check(b[i] == a[i], "conversion from the linear-algebra type");
        sym_check(c[i] == a[i], "assignment from the linear-algebra type");
        sym_check(d[i] == a[i], "copy");
    }
    sym_reach("convert");
}
extern "C" void sym_harness() {
    sym_mode(SYM_FPA);
    switch (sym_int("case", 0, 7)) {
        case 0: equality<2>(); break;
        case 1: equality<3>(); break;
        case 2: zeroDivision<2>(); break;
        case 3: zeroDivision<3>(); break;
        case 4: elementwise<2>(); break;
        case 5: elementwise<3>(); break;
        case 6: convert<2>(); break;
        case 7: convert<3>(); break;
    }
}
