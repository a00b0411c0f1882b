// Angles, cotangents, obtuseness and dihedral angles.
#include "common.h"
#include "core/utils.h"

static const double B = 64;

// |a x b|^2, via the Gram determinant
static double cross2(const Vec3 &a, const Vec3 &b) {
    Vec3 c = cross3(a, b);
    return dot3(c, c);
}
static void angleCase() {
    Vec3 a = symVec("a", -B, B), b = symVec("b", -B, B), c = symVec("c", -B, B);
    Vec3 e0 = sub3(a, b), e1 = sub3(c, b);
    double d = dot3(e0, e1), x2 = cross2(e0, e1);
    sym_assume_lt(0.0, x2);
    double t = angle(a, b, c);
    double l2 = dot3(e0, e0) * dot3(e1, e1);
    double ll = std::sqrt(dot3(e0, e0)) * std::sqrt(dot3(e1, e1));
    sym_check_le(0.0, t, "angle is at least 0");
    sym_check_le(t, 3.14159265358979312, "angle is at most pi");
    double co = std::cos(t), si = std::sin(t);
    sym_check_eq(co * co * l2, d * d, "cosine of the angle (squared)");
    sym_check_le(0.0, co * d, "cosine of the angle has the sign of the dot product");
    sym_check_eq(si * si * l2, x2, "sine of the angle (squared)");
    sym_check_le(0.0, si, "sine of the angle is non-negative");
    (void)ll;
    sym_check_eq(angle(c, b, a), t, "angle does not depend on the order of its arms");
    // cotangent
    sym_drop_eps(1e-15);
    double ct = cot(a, b, c);
    double ct2 = cot(c, b, a);
    sym_drop_eps(0);
    sym_check_eq(ct * std::sqrt(x2), d, "cotangent is cosine over sine");
    sym_check_eq(ct2, ct, "cotangent does not depend on the order of its arms");
    sym_out("t", t);
    sym_out("cot", ct);
    sym_reach("angle");
}
static void obtuseCase() {
    // a triangle in the plane; its longest edge may be any of the three, so every order is covered
    double ax = sym_real("ax", -B, B), ay = sym_real("ay", -B, B), bx = sym_real("bx", -B, B), by = sym_real("by", -B, B);
    int order = sym_int("order", 0, 5);
    static const int perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
    double P[3][3] = { { 0, 0, 0 }, { ax, 0, ay }, { bx, 0, by } };
    sym_assume_ne(ax * by - ay * bx, 0.0);
    auto v = [&](int k) { return Vec3(P[perm[order][k]][0], P[perm[order][k]][1], P[perm[order][k]][2]); };
    Vec3 p = v(0), q = v(1), r = v(2);
    bool o = obtuse(p, q, r);
    // obtuse <=> the dot product at some corner is negative
    double dp = dot3(sub3(q, p), sub3(r, p)), dq = dot3(sub3(p, q), sub3(r, q)), dr = dot3(sub3(p, r), sub3(q, r));
    if (o) {
        bool some = dp < 0 || dq < 0 || dr < 0;
        sym_check(some, "a triangle reported obtuse has an angle above a right angle");
        sym_reach("obtuse");
    } else {
        sym_check_le(0.0, dp, "a triangle not reported obtuse has no angle above a right angle");
        sym_check_le(0.0, dq, "a triangle not reported obtuse has no angle above a right angle");
        sym_check_le(0.0, dr, "a triangle not reported obtuse has no angle above a right angle");
        sym_reach("not obtuse");
    }
    sym_outi("o", o);
}
static void dihedralHinge() {
    // the shared edge on the first axis of one of several orthogonal frames, anywhere in space: the
    // dihedral angle is the plane angle between the arms, from whichever triangle it is measured
    int frame = sym_int("frame", 0, 5);
    static const double R[6][3][3] = {
        { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } },  { { 0, 1, 0 }, { 0, 0, 1 }, { 1, 0, 0 } },
        { { 0, 0, 1 }, { 1, 0, 0 }, { 0, 1, 0 } },  { { 0, -1, 0 }, { 1, 0, 0 }, { 0, 0, 1 } },
        { { 3, 0, 4 }, { 0, -5, 0 }, { 4, 0, -3 } }, { { 2, -1, 2 }, { 2, 2, -1 }, { -1, 2, 2 } },
    };
    Vec3 t0 = symVec("t", -B, B);
    auto Pt = [&](double u, double v, double w) {
        double p[3];
        for (int k = 0; k < 3; k++) p[k] = t0[k] + (u * R[frame][0][k] + v * R[frame][1][k] + w * R[frame][2][k]);
        return Vec3(p[0], p[1], p[2]);
    };
    double L = sym_real("L", 0.125, B);
    double x1 = sym_real("x1", -B, B), y1 = sym_real("y1", -B, B), z1 = sym_real("z1", -B, B);
    double x4 = sym_real("x4", -B, B), y4 = sym_real("y4", -B, B), z4 = sym_real("z4", -B, B);
    double w1 = y1 * y1 + z1 * z1, w4 = y4 * y4 + z4 * z4;
    sym_assume_lt(0.0, w1);
    sym_assume_lt(0.0, w4);
    Vec3 v1 = Pt(x1, y1, z1), v2 = Pt(0, 0, 0), v3 = Pt(L, 0, 0), v4 = Pt(x4, y4, z4);
    double t = dihedral(v1, v2, v3, v4);
    double co = std::cos(t), want = y1 * y4 + z1 * z4;
    sym_check_eq(co * std::sqrt(w1) * std::sqrt(w4), want, "dihedral angle is the opening angle of the hinge");
    sym_check_le(0.0, std::sin(t), "dihedral angle is between 0 and pi");
    int other = sym_int("other", 0, 2);
    double t2 = other == 0 ? dihedral(v4, v2, v3, v1) : other == 1 ? dihedral(v1, v3, v2, v4) : dihedral(v4, v3, v2, v1);
    sym_check_eq(std::cos(t2) * std::sqrt(w1) * std::sqrt(w4), want, "dihedral angle does not depend on the order of the triangles or of the edge");
    sym_out("dih", t);
    sym_reach("hinge");
}
static void dihedralDegenerate() {
    sym_div_policy(SYM_DIV_FORK);
    // either triangle collapses onto the edge line (or the edge itself has no length)
    Vec3 v2 = symVec("q", -B, B), v3 = symVec("r", -B, B), o = symVec("s", -B, B);
    double s = sym_real("k", -4, 4);
    Vec3 flat = add3(v2, mul3(sub3(v3, v2), s));
    int which = sym_int("which", 0, 2);
    double t = which == 0 ? dihedral(flat, v2, v3, o) : which == 1 ? dihedral(o, v2, v3, flat) : dihedral(o, v2, v2, v3);
    sym_check_eq(t, 0.0, "dihedral angle of a degenerate triangle is 0");
    sym_reach("degenerate");
}
extern "C" void sym_harness() {
    switch (sym_int("case", 0, 3)) {
        case 0: angleCase(); break;
        case 1: obtuseCase(); break;
        case 2: dihedralHinge(); break;
        case 3: dihedralDegenerate(); break;
    }
}
