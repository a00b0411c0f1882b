// Component-wise vector arithmetic over all real components.
#include "common.h"

template <int N>
static Vec<double, N> mkv(const char *name) {
    Vec<double, N> v;
    for (int i = 0; i < N; i++) v[i] = sym_any((std::string(name) + std::to_string(i)).c_str());
    return v;
}
template <int N>
static void same(const Vec<double, N> &v, const double *e, const char *msg) {
    for (int i = 0; i < N; i++) sym_check_eq(v[i], e[i], msg);
}

template <int N>
static void arith() {
    using V = Vec<double, N>;
    V a = mkv<N>("a"), b = mkv<N>("b");
    double s = sym_any("s");
    double A[N], B[N], e[N];
    for (int i = 0; i < N; i++) A[i] = a[i], B[i] = b[i];
#define EACH(expr) for (int i = 0; i < N; i++) e[i] = (expr)
#define KEEP(msg) same<N>(a, A, msg); same<N>(b, B, msg)
    { V r = a + b; EACH(A[i] + B[i]); same<N>(r, e, "vector + vector"); KEEP("operands of +"); }
    { V r = a - b; EACH(A[i] - B[i]); same<N>(r, e, "vector - vector"); KEEP("operands of -"); }
    { V r = -a; EACH(-A[i]); same<N>(r, e, "-vector"); KEEP("operand of unary -"); }
    { V r = a * b; EACH(A[i] * B[i]); same<N>(r, e, "vector * vector"); KEEP("operands of *"); }
    { V r = a * s; EACH(A[i] * s); same<N>(r, e, "vector * scalar"); KEEP("operands of * scalar"); }
    { V r = s * a; EACH(A[i] * s); same<N>(r, e, "scalar * vector"); KEEP("operands of scalar *"); }
    { V r = a - s; EACH(A[i] - s); same<N>(r, e, "vector - scalar"); KEEP("operands of - scalar"); }
    { V r = s - a; EACH(s - A[i]); same<N>(r, e, "scalar - vector"); KEEP("operands of scalar -"); }
    { V r(a); V &q = (r += b); EACH(A[i] + B[i]); same<N>(r, e, "+="); sym_check(&q == &r, "+= returns its object"); KEEP("operands of +="); }
    { V r(a); V &q = (r -= b); EACH(A[i] - B[i]); same<N>(r, e, "-="); sym_check(&q == &r, "-= returns its object"); KEEP("operands of -="); }
    { V r(a); V &q = (r *= b); EACH(A[i] * B[i]); same<N>(r, e, "*= vector"); sym_check(&q == &r, "*= returns its object"); KEEP("operands of *="); }
    { V r(a); V &q = (r *= s); EACH(A[i] * s); same<N>(r, e, "*= scalar"); sym_check(&q == &r, "*= returns its object"); }
    { V r(a); r += r; EACH(A[i] + A[i]); same<N>(r, e, "+= of itself"); }
    { V r(a); r -= r; EACH(0.0 * A[i]); same<N>(r, e, "-= of itself"); }
    { V r(a); r *= r; EACH(A[i] * A[i]); same<N>(r, e, "*= of itself"); }
    for (int k = 0; k < N; k++) { V r(a); r *= r[k]; EACH(A[i] * A[k]); same<N>(r, e, "*= of one of its own components"); }
    { V r; r = a; same<N>(r, A, "assignment"); r = r; same<N>(r, A, "self-assignment"); KEEP("operand of ="); }
    { double d = dot(a, b), f = 0; for (int i = 0; i < N; i++) f = f + A[i] * B[i]; sym_check_eq(d, f, "dot product"); KEEP("operands of dot"); }
    { double l = length(a), f = 0; for (int i = 0; i < N; i++) f = f + A[i] * A[i]; sym_check_le(0.0, l, "length is non-negative"); sym_check_eq(l * l, f, "length"); }
    sym_reach("arith");
    if (sym_int("div", 0, 1)) {
        // quotients, for divisors different from zero
        for (int i = 0; i < N; i++) sym_assume_ne(B[i], 0.0);
        sym_assume_ne(s, 0.0);
        { V r = a / b; for (int i = 0; i < N; i++) sym_check_eq(r[i] * B[i], A[i], "vector / vector"); KEEP("operands of /"); }
        { V r = a / s; for (int i = 0; i < N; i++) sym_check_eq(r[i] * s, A[i], "vector / scalar"); KEEP("operands of / scalar"); }
        { V r(a); V &q = (r /= b); for (int i = 0; i < N; i++) sym_check_eq(r[i] * B[i], A[i], "/= vector"); sym_check(&q == &r, "/= returns its object"); KEEP("operands of /="); }
        { V r(a); V &q = (r /= s); for (int i = 0; i < N; i++) sym_check_eq(r[i] * s, A[i], "/= scalar"); sym_check(&q == &r, "/= returns its object"); }
        for (int k = 0; k < N; k++) { V r(b); r /= r[k]; for (int i = 0; i < N; i++) sym_check_eq(r[i] * B[k], B[i], "/= of one of its own components"); }
        { V r(b); r /= r; for (int i = 0; i < N; i++) sym_check_eq(r[i], 1.0, "/= of itself"); }
        double L = 0;
        for (int i = 0; i < N; i++) L = L + B[i] * B[i];
        V n = normalize(b);
        double nn = 0;
        for (int i = 0; i < N; i++) nn = nn + n[i] * n[i];
        sym_check_eq(nn, 1.0, "normalised vector has unit length");
        double len = std::sqrt(L);
        for (int i = 0; i < N; i++) sym_check_eq(n[i] * len, B[i], "normalised vector keeps its direction");
        KEEP("operand of normalize");
        for (int i = 0; i < N; i++) sym_out("n", n[i]);
        sym_reach("div");
    }
}
template <int R, int C>
static void matrix() {
    Eigen::Matrix<double, R, C> m;
    double M[R][C];
    for (int i = 0; i < R; i++)
        for (int j = 0; j < C; j++) M[i][j] = m(i, j) = sym_any(("m" + std::to_string(i) + std::to_string(j)).c_str());
    Vec<double, C> v = mkv<C>("v");
    Vec<double, R> r = m * v;
    for (int i = 0; i < R; i++) {
        double f = 0;
        for (int j = 0; j < C; j++) f = f + M[i][j] * v[j];
        sym_check_eq(r[i], f, "matrix * vector");
    }
}

extern "C" void sym_harness() {
    sym_div_policy(SYM_DIV_FORK);
    switch (sym_int("case", 0, 8)) {
        case 0: arith<2>(); break;
        case 1: arith<3>(); break;
        case 2: arith<4>(); break;
        case 3: matrix<3, 3>(); sym_reach("matrix"); break;
        case 4: matrix<2, 2>(); matrix<2, 3>(); matrix<3, 2>(); break;
        case 5: {
            Vec3 a = mkv<3>("a"), b = mkv<3>("b");
            Vec3 c = cross(a, b);
            checkVec(c, cross3(a, b), "cross product");
            sym_check_eq(dot(c, a), 0.0, "cross product is orthogonal to its first operand");
            sym_check_eq(dot(c, b), 0.0, "cross product is orthogonal to its second operand");
            checkVec(cross(b, a), mul3(c, -1.0), "cross product is antisymmetric");
            sym_reach("cross");
            break;
        }
        case 6: {
            // constructors and accessors
            double x = sym_any("x"), y = sym_any("y"), z = sym_any("z"), w = sym_any("w");
            struct { double g0; Vec2 v; double g1; } b2 = { 1.5, Vec2(x, y), 2.5 };
            double e2[2] = { x, y };
            same<2>(b2.v, e2, "two-component constructor");
            sym_check_eq(b2.v.x(), x, "x()");
            sym_check_eq(b2.v.y(), y, "y()");
            Vec3 v3(x, y, z);
            double e3[3] = { x, y, z };
            same<3>(v3, e3, "three-component constructor");
            sym_check_eq(v3.x(), x, "x()");
            sym_check_eq(v3.y(), y, "y()");
            sym_check_eq(v3.z(), z, "z()");
            Vec3 v3s(x, y);
            double e3s[3] = { x, y, 0.0 };
            same<3>(v3s, e3s, "three-component vector from two components");
            Vec<double, 4> v4(x, y, z, w);
            double e4[4] = { x, y, z, w };
            same<4>(v4, e4, "four-component constructor");
            sym_check_eq(v4.w(), w, "w()");
            Vec3 f(x);
            double ef[3] = { x, x, x };
            same<3>(f, ef, "filling constructor");
            Vec2 f2(x);
            same<2>(f2, ef, "filling constructor, two components");
            Vec3 d;
            double e0[3] = { 0, 0, 0 };
            same<3>(d, e0, "default constructor is zero");
            Vec2 d2;
            same<2>(d2, e0, "default constructor is zero, two components");
            v3[1] = w;
            sym_check_eq(v3[0], x, "writing one component leaves the others");
            sym_check_eq(v3[1], w, "writing one component");
            sym_check_eq(v3[2], z, "writing one component leaves the others");
            sym_reach("ctor");
            break;
        }
        case 7: {
            // conversion to and from Eigen
            double x = sym_any("x"), y = sym_any("y"), z = sym_any("z");
            Vec3 v(x, y, z);
            Eigen::Vector3d e = v;
            for (int i = 0; i < 3; i++) sym_check_eq(e(i), v[i], "conversion to a linear-algebra vector");
            Vec3 r(e);
            checkVec(r, v, "conversion from a linear-algebra vector");
            Vec3 q;
            q = e;
            checkVec(q, v, "assignment from a linear-algebra vector");
            Vec3 c(v);
            checkVec(c, v, "copy");
            sym_reach("eigen");
            break;
        }
        case 8: {
            // linearity ties of the compound forms: (a + b) - b = a, (a - b) + b = a
            Vec3 a = mkv<3>("a"), b = mkv<3>("b");
            checkVec((a + b) - b, a, "(a + b) - b = a");
            checkVec((a - b) + b, a, "(a - b) + b = a");
            checkVec(a + (-a), Vec3(0.0), "a + (-a) = 0");
            break;
        }
    }
}
