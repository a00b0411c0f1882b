// C26: rotations about an axis and between two vectors.
#include "common.h"
#include "core/utils.h"

static Vec3 apply(const EigenMatrix3 &R, const Vec3 &v) {
    Vec3 r(0.0, 0.0, 0.0);
    for (int i = 0; i < 3; i++) r[i] = R(i, 0) * v[0] + R(i, 1) * v[1] + R(i, 2) * v[2];
    return r;
}
static void proper(const EigenMatrix3 &R) {
    for (int i = 0; i < 3; i++)
        for (int j = i; j < 3; j++)
            sym_check_eq(R(0, i) * R(0, j) + R(1, i) * R(1, j) + R(2, i) * R(2, j), i == j ? 1.0 : 0.0, "a rotation is orthogonal");
    double det = R(0, 0) * (R(1, 1) * R(2, 2) - R(1, 2) * R(2, 1)) - R(0, 1) * (R(1, 0) * R(2, 2) - R(1, 2) * R(2, 0)) + R(0, 2) * (R(1, 0) * R(2, 1) - R(1, 1) * R(2, 0));
    sym_check_eq(det, 1.0, "the determinant of a rotation is one");
}
extern "C" void sym_harness() {
    int kind = sym_int("case", 0, 4);
    sym_lazy(1);
    if (kind == 0) {   // any unit axis, any angle: the axis is the direction of v, the angle that of (x, y)
        Vec3 v = symVec("v", -16, 16), w = symVec("w", -16, 16);
        double x = sym_real("x", -16, 16), y = sym_real("y", -16, 16);
        double l2 = dot3(v, v), r2 = x * x + y * y;
        sym_assume_lt(0.0, l2);
        sym_assume_lt(0.0, r2);
        double l = std::sqrt(l2), r = std::sqrt(r2);
        Vec3 a(v[0] / l, v[1] / l, v[2] / l);
        EigenMatrix3 R = rotationAxisAngle(std::atan2(y, x), a);
        proper(R);
        checkVec(apply(R, a), a, "a rotation keeps its axis");
        Vec3 p = cross3(a, w), q = cross3(a, p), t = apply(R, p);   // p is perpendicular to the axis
        for (int d = 0; d < 3; d++) sym_check_eq(t[d] * r, p[d] * x + q[d] * y, "a vector perpendicular to the axis turns by the angle, counter-clockwise");
        sym_out("R00", R(0, 0));
        sym_reach("axis");
    } else if (kind == 1 || kind > 2) {   // any two vectors, or two at a small angle
        Vec3 a, b;
        if (kind == 1) a = symVec("a", -16, 16), b = symVec("b", -16, 16);
        else {
            double k = sym_real("k", 1, 16), t = kind == 3 ? sym_real("t", 0.0001, 0.0005) : sym_real("t", 0.000008, 0.000016);
            a = Vec3(k, 0.0, 0.0);
            b = Vec3(1.0, t, 0.0);
        }
        Vec3 o = cross3(a, b);
        double aa = dot3(a, a), bb = dot3(b, b), oo = dot3(o, o);
        sym_note("the two vectors are neither zero nor within a millionth of parallel or opposite");
        sym_assume_lt(0.0, aa);
        sym_assume_lt(0.0, bb);
        sym_assume_lt(1e-12 * aa * bb, oo);
        sym_assume_lt(0.0, oo);
        sym_assume_lt(1e-6, std::atan2(std::sqrt(oo), dot3(a, b)));
        sym_lazy(0);
        EigenMatrix3 R = rotationFromTwoVectors(a, b);
        sym_lazy(1);
        proper(R);
        Vec3 t = apply(R, a);
        // a rotation keeps lengths, so that this says that t is the vector of the length of a in the direction of b
        Vec3 x = cross3(t, b);
        for (int d = 0; d < 3; d++) sym_check_eq(x[d], 0.0, "the first vector is turned onto the line of the second");
        double h = std::sqrt(oo + dot3(a, b) * dot3(a, b));   // the product of the two lengths
        sym_check_eq(dot3(t, b) * h, aa * bb, "the first vector is turned onto the direction of the second, not away from it");
        sym_check_eq(R(0, 0) * o[0] + R(0, 1) * o[1] + R(0, 2) * o[2], o[0], "the turn is about the common perpendicular");
        sym_out("R00", R(0, 0));
        sym_reach(kind == 1 ? "between" : "small angle");
    } else {   // parallel vectors
        Vec3 a = symVec("a", -16, 16);
        double k = sym_real("k", 0.001, 16);
        sym_assume_lt(0.0, dot3(a, a));
        sym_assume_lt(0.0, k);
        EigenMatrix3 R = rotationFromTwoVectors(a, mul3(a, k));
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++) sym_check_eq(R(i, j), i == j ? 1.0 : 0.0, "parallel vectors need no turn");
        sym_out("R00", R(0, 0));
        sym_reach("parallel");
    }
}
