// Spatial index against a scan over all triangles.
#include "common.h"
#include "core/bvh.h"
#include "core/triangle.h"
#include <memory>
using namespace tinymesh;

static const double B = 32;
using Tri = std::array<Vec3, 3>;

static Vec3 onAxis(int axis, double u, double v, double w) {
    return axis == 0 ? Vec3(u, v, w) : axis == 1 ? Vec3(w, u, v) : Vec3(v, w, u);
}
struct Soup {
    std::vector<Vec3> vs;
    std::vector<uint32_t> idx;
    void add(const Vec3 &a, const Vec3 &b, const Vec3 &c) {
        vs.emplace_back(a);
        vs.emplace_back(b);
        vs.emplace_back(c);
        for (int i = 0; i < 3; i++) idx.push_back((uint32_t)idx.size());
    }
    size_t size() const { return idx.size() / 3; }
    Triangle tri(size_t i) const { return Triangle(vs[idx[3 * i]], vs[idx[3 * i + 1]], vs[idx[3 * i + 2]]); }
};
static void compare(const BVH &bvh, const Soup &s, const Vec3 &q) {
    Vec3 r = bvh.closestPoint(q);
    Vec3 e = sub3(q, r);
    double d2 = dot3(e, e);
    bool on = false;
    for (size_t i = 0; i < s.size(); i++) {
        Triangle t = s.tri(i);
        Vec3 c = t.closestPoint(q);
        Vec3 f = sub3(q, c);
        sym_check_le(d2, dot3(f, f), "no triangle is closer than the point found through the index");
        if (!on && c[0] == r[0] && c[1] == r[1] && c[2] == r[2]) on = true;
    }
    sym_check(on, "the point found through the index is a point of one of the triangles");
    double d = bvh.distance(q);
    sym_check_le(0.0, d, "distance is non-negative");
    sym_check_eq(d * d, d2, "distance equals the distance to the point found");
    sym_out("d2", d2);
}
// planar tiles perpendicular to an axis, at symbolic positions along it
static void tiles(int lo, int hi, int nsym) {
    int axis = sym_int("axis", 0, 2), n = sym_int("n", lo, hi), pat = nsym > 1 || sym_tier() ? sym_int("pat", 0, 2) : axis;
    Soup s;
    for (int i = 0; i < n; i++) {
        static const double even[12] = { -10, -7, -5, -3, -1, 0, 2, 4, 6, 8, 9, 11 };
        static const double skew[12] = { 0, 0.25, 0.5, 0.5, 0.75, 1, 1.25, 20, 0.125, 1.5, 0.875, 1.75 };
        double x = i < nsym ? sym_real(("x" + std::to_string(i)).c_str(), -B, B) : pat == 0 ? even[i] : pat == 1 ? skew[i] : 3.0;
        double o = 0.5 * i;
        s.add(onAxis(axis, x, o, 0), onAxis(axis, x, o + 1, 0), onAxis(axis, x, o, 1));
    }
    double q = sym_real("q", -B, B);
    int at = nsym > 1 ? sym_int("at", 0, 1) : 0;
    static const double where[2][2] = { { 0.25, 0.25 }, { -3, 5 } };
    BVH bvh(s.vs, s.idx);
    compare(bvh, s, onAxis(axis, q, where[at][0], where[at][1]));
    sym_reach(n > 8 ? "many" : "few");
}
// a fixed triangle and one freely placed in a plane; the query moves in a parallel plane
static void freePair() {
    Soup s;
    int up = sym_int("up", 0, 1);
    double x = sym_real("x", -B, B), y = sym_real("y", -B, B), q = sym_real("q", -B, B), r = sym_tier() ? sym_real("r", -B, B) : 0.5;
    Vec3 t(x, y, 0.25);
    s.add(Vec3(0, 0, 0), Vec3(2, 0, 0), Vec3(0, 1, 0));
    if (up) s.add(t, add3(t, Vec3(3, 0, 0)), add3(t, Vec3(0, 0, 2)));
    else s.add(t, add3(t, Vec3(0, 3, 0)), add3(t, Vec3(1, 0, 0)));
    BVH bvh(s.vs, s.idx);
    compare(bvh, s, Vec3(q, r, 1.0));
    sym_reach("pair");
}
// an index rebuilt with other data answers for the new data
static void rebuild() {
    Soup s0, s1;
    int n0 = sym_int("n0", 1, 3), n1 = sym_int("n1", 1, 2);
    for (int i = 0; i < n0; i++) s0.add(Vec3(i, 0, 0), Vec3(i, 1, 0), Vec3(i, 0, 1));
    for (int i = 0; i < n1; i++) {
        double x = sym_real(("x" + std::to_string(i)).c_str(), -B, B);
        s1.add(Vec3(x, 0, 0), Vec3(x, 2, 0), Vec3(x, 0, 2));
    }
    double q = sym_real("q", -B, B);
    BVH bvh(s0.vs, s0.idx);
    bvh.construct(s1.vs, s1.idx);
    compare(bvh, s1, Vec3(q, 0.5, 0.5));
    sym_reach("rebuild");
}
// shared vertices: the indices select the corners
static void indexed() {
    double h = sym_real("h", -B, B);
    std::vector<Vec3> vs;
    vs.emplace_back(0, 0, 0); vs.emplace_back(4, 0, 0); vs.emplace_back(0, 4, 0); vs.emplace_back(4, 4, h); vs.emplace_back(9, 9, 9);
    Soup s;
    s.vs = vs;
    s.idx = { 0, 1, 2, 3, 2, 1 };
    double q = sym_real("q", -B, B);
    BVH bvh(s.vs, s.idx);
    compare(bvh, s, Vec3(q, q, 1.0));
    sym_reach("indexed");
}
// many identical or collinear triangles: the construction terminates
static void coincident() {
    static const int sizes[4] = { 9, 10, 16, 20 };
    int n = sizes[sym_int("n", 0, 3)], kind = sym_int("kind", 0, 2);
    double x = sym_real("x", -B, B);
    Soup s;
    for (int i = 0; i < n; i++) {
        if (kind == 0) s.add(Vec3(x, 0, 0), Vec3(x, 1, 0), Vec3(x, 0, 1));                       // identical
        else if (kind == 1) s.add(Vec3(i, i, 0), Vec3(i + 1, i, 0), Vec3(i, i, 1));               // a row
        else s.add(Vec3(0, 0, i == 4 ? x : 1.0 * (i % 2)), Vec3(1, 0, i == 4 ? x : 1.0 * (i % 2)), Vec3(0, 1, i == 4 ? x : 1.0 * (i % 2)));   // two heaps
    }
    double q = sym_real("q", -B, B);
    BVH bvh(s.vs, s.idx);
    compare(bvh, s, kind == 2 ? Vec3(0.25, 0.25, q) : Vec3(q, 0.25, 0.25));
    sym_reach("coincident");
}
// queries and triangles far from one another, up to a large multiple of the size of a triangle
static void distant() {
    static const double scale[3] = { 1024, 1048576, 1e12 };
    const double k = scale[sym_int("scale", 0, 2)];
    int n = sym_int("n", 1, 2);
    Soup s;
    for (int i = 0; i < n; i++) {
        double x = sym_real(("x" + std::to_string(i)).c_str(), -k, k);
        s.add(Vec3(x, 0, 0), Vec3(x, 1, 0), Vec3(x, 0, 1));
    }
    double q = sym_real("q", -16 * k, 16 * k);
    BVH bvh(s.vs, s.idx);
    compare(bvh, s, Vec3(q, 0.25, 0.25));
    sym_reach("distant");
}
// spread out so far that the outermost triangle falls on the end of the last bucket
static void spread() {
    const double k = 1048576;
    int n = 9, axis = sym_tier() ? sym_int("axis", 0, 2) : 1;
    Soup s;
    for (int i = 0; i < n; i++) {
        double x = i == 3 ? k * sym_real("x", 0, 8) : k * i, o = i % 2;
        s.add(onAxis(axis, x, o, 0), onAxis(axis, x, o + 1, 0), onAxis(axis, x, o, 1));
    }
    double q = k * sym_real("q", -2, 10);
    BVH bvh(s.vs, s.idx);
    compare(bvh, s, onAxis(axis, q, 0.25, 0.25));
    sym_reach("spread");
}
extern "C" void sym_harness() {
#ifdef H_SPREAD
    spread();
#else
    int hi = sym_tier();
    switch (sym_int("case", 0, 6)) {
        case 0: tiles(1, hi ? 4 : 3, 3); break;
        case 1: tiles(9, hi ? 12 : 9, 1); break;
        case 2: freePair(); break;
        case 3: rebuild(); break;
        case 4: indexed(); break;
        case 5: coincident(); break;
        case 6: distant(); break;
    }
#endif
}
