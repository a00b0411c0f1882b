// Closest point on a triangle: containment and the variational inequality at the three corners.
// Every non-degenerate triangle is a rigid motion of (0,0,0), (a,0,0), (b,c,0) with a, c > 0 (here at least
// 1/64); the
// frames below place that triangle and its query in several orthonormal frames, translated freely.
#include "common.h"
#include "core/triangle.h"
using namespace tinymesh;

extern "C" void sym_harness() {
    sym_div_policy(SYM_DIV_FORK);
    const double B = 16;
    int frame = sym_int("frame", 0, 5);
    double a = sym_real("a", -B, B), b = sym_real("b", -B, B), c = sym_real("c", -B, B);
    double x = sym_real("x", -B, B), y = sym_real("y", -B, B), z = sym_real("z", -B, B);
    sym_assume_le(1.0 / 64, a);
    sym_assume_le(1.0 / 64, c);
    Vec3 t = symVec("t", -B, B);
    // rows: images of the three axes, up to a common scale (kept integral so that the frames are exact)
    static const double R[6][3][3] = {
        { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } },  { { 0, 1, 0 }, { 0, 0, 1 }, { 1, 0, 0 } },
        { { 0, 0, 1 }, { 1, 0, 0 }, { 0, 1, 0 } },  { { 0, -1, 0 }, { 1, 0, 0 }, { 0, 0, 1 } },
        { { 3, 0, 4 }, { 0, -5, 0 }, { 4, 0, -3 } }, { { 2, -1, 2 }, { 2, 2, -1 }, { -1, 2, 2 } },
    };
    static const double S2[6] = { 1, 1, 1, 1, 25, 9 };
    auto Pt = [&](double u, double v, double w) {
        double p[3];
        for (int k = 0; k < 3; k++) p[k] = t[k] + (u * R[frame][0][k] + v * R[frame][1][k] + w * R[frame][2][k]);
        return Vec3(p[0], p[1], p[2]);
    };
    Vec3 p0 = Pt(0, 0, 0), p1 = Pt(a, 0, 0), p2 = Pt(b, c, 0), q = Pt(x, y, z);
    Triangle tr(p0, p1, p2);
    Vec3 r = tr.closestPoint(q);
    Vec3 rl = sub3(r, t);
    double l[3];
    for (int k = 0; k < 3; k++) l[k] = (rl[0] * R[frame][k][0] + rl[1] * R[frame][k][1] + rl[2] * R[frame][k][2]) / S2[frame];
    double ru = l[0], rv = l[1], rw = l[2];
    sym_check_eq(rw, 0.0, "closest point lies in the plane of the triangle");
    // barycentric weights times a*c
    double w2 = rv * a, w1 = ru * c - rv * b, w0 = a * c - w1 - w2;
    sym_check_le(0.0, w0, "closest point inside the triangle (weight of the first corner)");
    sym_check_le(0.0, w1, "closest point inside the triangle (weight of the second corner)");
    sym_check_le(0.0, w2, "closest point inside the triangle (weight of the third corner)");
    double dx = x - ru, dy = y - rv;
    sym_check_le(dx * (0 - ru) + dy * (0 - rv), 0.0, "no point towards the first corner is closer");
    sym_check_le(dx * (a - ru) + dy * (0 - rv), 0.0, "no point towards the second corner is closer");
    sym_check_le(dx * (b - ru) + dy * (c - rv), 0.0, "no point towards the third corner is closer");
    if (frame == 0) {
        double d = tr.distance(q);
        sym_check_le(0.0, d, "distance is non-negative");
        Vec3 e = sub3(q, r);
        sym_check_eq(d * d, dot3(e, e), "distance is measured to the closest point");
        sym_reach("distance");
    }
    outVec("r", r);
    sym_reach("end");
}
