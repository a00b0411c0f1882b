// Axis-aligned boxes.
#include "common.h"
#include "core/bounds.h"
#include "core/triangle.h"
using namespace tinymesh;

static const double B = 1e20;

template <int N>
static Vec<double, N> mk(const char *name) {
    Vec<double, N> v;
    for (int i = 0; i < N; i++) v[i] = sym_real((std::string(name) + std::to_string(i)).c_str(), -B, B);
    return v;
}
// the box [lo, hi] is the smallest one holding the points ps
template <int N>
static void smallest(const Bounds<double, N> &b, const std::vector<Vec<double, N>> &ps, const char *msg) {
    Vec<double, N> lo(b.posMin()), hi(b.posMax());
    for (int d = 0; d < N; d++) {
        bool onLo = false, onHi = false;
        for (auto &p : ps) {
            sym_check_le(lo[d], p[d], msg);
            sym_check_le(p[d], hi[d], msg);
            if (!onLo && lo[d] == p[d]) onLo = true;
            if (!onHi && hi[d] == p[d]) onHi = true;
        }
        sym_check(onLo && onHi, msg);
    }
}
template <int N>
static void grow() {
    int n = sym_int("n", 1, 3);
    // one coordinate is symbolic at a time: boxes treat their coordinates independently only if the code does
    int axis = sym_int("axis", 0, N);
    std::vector<Vec<double, N>> ps;
    Bounds<double, N> b;
    static const double fixed[3][3] = { { 3, -2, 7 }, { -5, -2, 9 }, { 1, 4, 8 } };
    for (int i = 0; i < n; i++) {
        Vec<double, N> p;
        for (int d = 0; d < N; d++) {
            bool s = d == axis || (axis == N && (i < 2));
            p[d] = s ? sym_real(("p" + std::to_string(i) + std::to_string(d)).c_str(), -B, B) : fixed[i][d];
        }
        ps.push_back(p);
        b.merge(p);
    }
    smallest<N>(b, ps, "box grown from points is the smallest box holding them");
    sym_reach("grow");
}
template <int N>
static void mergeBoxes() {
    // two boxes with arbitrary ordered corners; one axis symbolic at a time
    int axis = sym_int("axis", 0, N - 1);
    Vec<double, N> lo0, hi0, lo1, hi1;
    for (int d = 0; d < N; d++) {
        if (d == axis) {
            lo0[d] = sym_real("lo0", -B, B), hi0[d] = sym_real("hi0", -B, B), lo1[d] = sym_real("lo1", -B, B), hi1[d] = sym_real("hi1", -B, B);
            sym_assume_le(lo0[d], hi0[d]);
            sym_assume_le(lo1[d], hi1[d]);
        } else lo0[d] = -1 - d, hi0[d] = 3 + d, lo1[d] = -2 + d, hi1[d] = 5 - d;
    }
    Bounds<double, N> b0(lo0, hi0), b1(lo1, hi1);
    auto m = Bounds<double, N>::merge(b0, b1);
    smallest<N>(m, { lo0, hi0, lo1, hi1 }, "merged box is the smallest box holding both");
    Bounds<double, N> e;
    auto m2 = Bounds<double, N>::merge(e, b0), m3 = Bounds<double, N>::merge(b0, e);
    for (int d = 0; d < N; d++) {
        sym_check_eq(m2.posMin()[d], lo0[d], "merging with an empty box");
        sym_check_eq(m2.posMax()[d], hi0[d], "merging with an empty box");
        sym_check_eq(m3.posMin()[d], lo0[d], "merging with an empty box");
        sym_check_eq(m3.posMax()[d], hi0[d], "merging with an empty box");
    }
    sym_reach("merge");
}
template <int N>
static void insideCase() {
    auto lo = mk<N>("lo"), hi = mk<N>("hi"), p = mk<N>("p");
    for (int d = 0; d < N; d++) sym_assume_le(lo[d], hi[d]);
    Bounds<double, N> b(lo, hi);
    bool in = b.inside(p);
    bool want = true;
    for (int d = 0; d < N; d++) want = want && lo[d] <= p[d] && p[d] <= hi[d];
    sym_check(in == want, "inside test holds exactly for the closed box");
    sym_reach(in ? "inside" : "outside");
}
static void distanceCase() {
    Vec3 lo(mk<3>("lo")), hi(mk<3>("hi")), p(mk<3>("p"));
    for (int d = 0; d < 3; d++) sym_assume_le(lo[d], hi[d]);
    Bounds3 b(lo, hi);
    double dist = b.distance(p);
    double want = 0;
    for (int d = 0; d < 3; d++) {
        double c = p[d] < lo[d] ? lo[d] - p[d] : hi[d] < p[d] ? p[d] - hi[d] : 0.0;
        want = want + c * c;
    }
    sym_check_le(0.0, dist, "distance to a box is non-negative");
    sym_check_eq(dist * dist, want, "distance to a box is the distance to its nearest point");
    sym_reach("distance");
}
static void areaCase() {
    Vec3 lo(mk<3>("lo")), hi(mk<3>("hi"));
    for (int d = 0; d < 3; d++) sym_assume_le(lo[d], hi[d]);
    Bounds3 b(lo, hi);
    double x = hi[0] - lo[0], y = hi[1] - lo[1], z = hi[2] - lo[2];
    sym_check_eq(b.area(), x * y * 2 + y * z * 2 + x * z * 2, "surface area of the cuboid");
    sym_reach("area");
}
template <int N>
static void extentCase() {
    auto lo = mk<N>("lo"), hi = mk<N>("hi");
    for (int d = 0; d < N; d++) sym_assume_le(lo[d], hi[d]);
    Bounds<double, N> b(lo, hi);
    int k = b.maxExtent();
    sym_check(k >= 0 && k < N, "longest axis is an axis");
    for (int d = 0; d < N; d++) sym_check_le(hi[d] - lo[d], hi[k] - lo[k], "longest axis has the greatest extent");
    for (int d = 0; d < N; d++) {
        sym_check_eq(b.posMin()[d], lo[d], "lower corner");
        sym_check_eq(b.posMax()[d], hi[d], "upper corner");
    }
    sym_outi("axis", k);
    sym_reach("extent");
}
static void triangleBounds() {
    int axis = sym_int("axis", 0, 2);
    std::vector<Vec3> ps;
    static const double fixed[3][3] = { { 3, -2, 7 }, { -5, -2, 9 }, { 1, 4, 8 } };
    for (int i = 0; i < 3; i++) {
        Vec3 p;
        for (int d = 0; d < 3; d++) p[d] = d == axis ? sym_real(("p" + std::to_string(i)).c_str(), -B, B) : fixed[i][d];
        ps.push_back(p);
    }
    Triangle t(ps[0], ps[1], ps[2]);
    smallest<3>(t.bounds(), ps, "box of a triangle is the smallest box holding its corners");
    sym_reach("triangle");
}
extern "C" void sym_harness() {
    switch (sym_int("case", 0, 10)) {
        case 0: grow<2>(); break;
        case 1: grow<3>(); break;
        case 2: mergeBoxes<2>(); break;
        case 3: mergeBoxes<3>(); break;
        case 4: insideCase<2>(); break;
        case 5: insideCase<3>(); break;
        case 6: distanceCase(); break;
        case 7: areaCase(); break;
        case 8: extentCase<2>(); break;
        case 9: extentCase<3>(); break;
        case 10: triangleBounds(); break;
    }
}
