// C27: per-vertex distances between meshes and the Hausdorff-type distance.
#include "meshlib.h"
#include "ops/ops.h"
#include "core/triangle.h"

static Shape sheet() {   // one triangle
    Shape s;
    s.pos = { { 0, 0, 0 }, { 4, 0, 0 }, { 0, 4, 0 } };
    s.tris = { { 0, 1, 2 } };
    return s;
}
static Shape shapeOf(int k) { return k == 0 ? sheet() : k == 1 ? tetra() : grid(2, 2); }
static Mesh meshOf(const Shape &s, const std::array<double, 3> &shift) {
    std::vector<Vec3> vs;
    std::vector<uint32_t> idx;
    for (auto &p : s.pos) vs.emplace_back(p[0] + shift[0], p[1] + shift[1], p[2] + shift[2]);
    for (auto &t : s.tris) for (int i : t) idx.push_back((uint32_t)i);
    return Mesh(vs, idx);
}
// moves one vertex of a mesh along one of three lines
static void loosen(Mesh &m, const char *name, int v, int dir) {
    double t = sym_real(name, -8, 8);
    static const double D[3][3] = { { 0, 0, 1 }, { 1, 0, 0 }, { 1, -2, 1 } };
    Vec3 p = m.vertex(v)->pos();
    m.vertex(v)->setPos(Vec3(p[0] + t * D[dir][0], p[1] + t * D[dir][1], p[2] + t * D[dir][2]));
}
static std::vector<Triangle> trianglesOf(const Mesh &m, const Structure &s) {
    std::vector<Triangle> r;
    for (auto &t : s.tris) r.emplace_back(m.vertex(t[0])->pos(), m.vertex(t[1])->pos(), m.vertex(t[2])->pos());
    return r;
}
static const double TOL = 1e-9;
static void checkList(const EigenVector &d, const Mesh &src, const Mesh &dst, const Structure &sd, double u, double v) {
    sym_check((int)d.size() == (int)src.numVertices(), "there is one distance per vertex");
    if ((int)d.size() != (int)src.numVertices()) return;
    std::vector<Triangle> tris = trianglesOf(dst, sd);
    for (int i = 0; i < (int)d.size(); i++) {
        Vec3 q = src.vertex(i)->pos();
        sym_check_le(0.0, d(i), "a distance is not negative");
        double d2 = d(i) * d(i);
        bool attained = false;
        for (int k = 0; k < (int)tris.size(); k++) {
            const Tri3 &t = sd.tris[k];
            // any point of the triangle
            Vec3 a = dst.vertex(t[0])->pos(), b = dst.vertex(t[1])->pos(), c = dst.vertex(t[2])->pos();
            Vec3 p = add3(add3(mul3(a, 1.0 - u - v), mul3(b, u)), mul3(c, v)), e = sub3(q, p);
            sym_check_le(d2, dot3(e, e) + TOL, "no point of the other surface is closer");
            if (attained) continue;
            Vec3 f = sub3(q, tris[k].closestPoint(q));
            double gap = d2 - dot3(f, f);
            if (gap >= -TOL && gap <= TOL) attained = true;
        }
        sym_check(attained, "the distance is that to a point of the other surface");
    }
}
extern "C" void sym_harness() {
    int kind = sym_int("case", 0, 2);
    sym_note("distances between fixed positions are rounded, and count as equal within 1e-9 of their squares");
    if (kind == 0) {
        int a = sym_int("src", 0, 2), b = sym_int("dst", 0, sym_tier() ? 2 : 1), dir = sym_int("dir", 0, sym_tier() ? 2 : 1);
        Mesh src = meshOf(shapeOf(a), { 1, 0.5, 2 }), dst = meshOf(shapeOf(b), { 0, 0, 0 });
        int v = sym_int("vertex", 0, (int)src.numVertices() - 1);
        loosen(src, "t", v, dir);
        double s = sym_real("u", 0, 1), t = sym_real("v", 0, 1);
        sym_assume_le(s + t, 1.0);
        EigenVector d = getPerVertexShortestDistances(src, dst);
        Structure sd = inspect(dst, "other mesh");
        if (!sd.ok) return;
        checkList(d, src, dst, sd, s, t);
        sym_out("d", d(v));
        sym_reach("list");
    } else if (kind == 1) {
        // two flat sheets of different size, one lifted and shifted
        int a = sym_int("first", 0, 2), b = sym_int("second", 0, 2);
        static const double off[3] = { 0.5, -3, 7 };
        double t = sym_real("t", -8, 8), dx = off[sym_int("shift", 0, 2)];
        Shape s0 = a == 0 ? sheet() : grid(2, a == 1 ? 2 : 3, 0), s1 = b == 0 ? sheet() : grid(2, b == 1 ? 2 : 3, 0);
        Mesh m0 = meshOf(s0, { 0, 0, 0 }), m1 = meshOf(s1, { dx, 0.5, 0 });
        for (int i = 0; i < (int)m1.numVertices(); i++) {
            Vec3 p = m1.vertex(i)->pos();
            m1.vertex(i)->setPos(Vec3(p[0], p[1], t));
        }
        EigenVector d01 = getPerVertexShortestDistances(m0, m1), d10 = getPerVertexShortestDistances(m1, m0);
        double h = getHausdorffDistance(m0, m1), g = getHausdorffDistance(m1, m0);
        sym_check_eq(h, g, "the Hausdorff-type distance is symmetric");
        bool one = false;
        for (int i = 0; i < (int)d01.size(); i++) { sym_check_le(d01(i), h, "no vertex of the first mesh is farther than the Hausdorff-type distance"); one = one || d01(i) == h; }
        for (int i = 0; i < (int)d10.size(); i++) { sym_check_le(d10(i), h, "no vertex of the second mesh is farther than the Hausdorff-type distance"); one = one || d10(i) == h; }
        sym_check(one, "the Hausdorff-type distance is that of some vertex");
        sym_out("h", h);
        sym_reach("hausdorff");
    } else {
        int a = sym_int("shape", 0, 2);
        Mesh m = meshOf(shapeOf(a), { 0, 0, 0 });
        loosen(m, "t", sym_int("vertex", 0, 1), 0);
        double h = getHausdorffDistance(m, m);
        sym_check_le(h * h, TOL, "a mesh has no distance to itself");
        sym_check_le(0.0, h, "the distance is not negative");
        sym_reach("itself");
    }
}
