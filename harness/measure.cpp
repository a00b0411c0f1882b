// C21, C22, C23, C33: areas, normals, curvatures, Laplacians and mesh statistics against plain formulas.
#include "netlib.h"
#ifdef H_STATISTICS
#include "minmax.h"
#endif
#include "ops/ops.h"

static double len(const Vec3 &a) { return std::sqrt(dot3(a, a)); }
static Vec3 outer(const Vec3 &a, const Vec3 &b, const Vec3 &c) { return cross3(sub3(b, a), sub3(c, a)); }
// the shape of a triangle: how its edges are ordered by length (13 orders, ties included), and whether it is obtuse
static const int RANK[13][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 }, { 0, 0, 1 },
                                 { 0, 1, 0 }, { 1, 0, 0 }, { 0, 1, 1 }, { 1, 0, 1 }, { 1, 1, 0 }, { 0, 0, 0 } };
static bool shapeExists(int order, bool wide) { return !wide || order < 9; }   // an obtuse triangle has one longest edge
static int longestOf(int order) { return (int)(std::max_element(RANK[order], RANK[order] + 3) - RANK[order]); }
static void shapeOfTriangle(const Vec3 &p0, const Vec3 &p1, const Vec3 &p2, int order, bool wide) {
    Vec3 e[3] = { sub3(p1, p0), sub3(p2, p1), sub3(p0, p2) };
    double q[3] = { dot3(e[0], e[0]), dot3(e[1], e[1]), dot3(e[2], e[2]) };
    const int *k = RANK[order], top = longestOf(order);
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
            if (k[i] < k[j]) sym_assume_lt(q[i], q[j]);
            else if (k[i] == k[j] && i < j) sym_assume_eq(q[i], q[j]);
    for (int i = 0; i < 3; i++) {
        double rest = q[(i + 1) % 3] + q[(i + 2) % 3];
        if (wide && i == top) sym_assume_lt(rest, q[i]);
        else sym_assume_le(q[i], rest);
    }
    // what this says about the angles: only the one opposite to the longest edge can be obtuse
    for (int i = 0; i < 3; i++) {
        double d = -dot3(e[i], e[(i + 2) % 3]);   // at corner i, opposite to edge i + 1
        if (wide && top == (i + 1) % 3) sym_assume_lt(d, 0.0);
        else sym_assume_le(0.0, d);
    }
}
// the share of corner a in the triangle's area
static double share(const Vec3 &a, const Vec3 &b, const Vec3 &c, int order, bool wide, int corner) {
    Vec3 x = outer(a, b, c);
    double A = 0.5 * len(x);
    if (wide) return longestOf(order) == (corner + 1) % 3 ? A * 0.5 : A * 0.25;
    // Voronoi: an eighth of the squared adjacent edges times the opposite cotangents
    double cotB = dot3(sub3(a, b), sub3(c, b)) / len(x), cotC = dot3(sub3(a, c), sub3(b, c)) / len(x);
    return 0.125 * (dot3(sub3(b, a), sub3(b, a)) * cotC + dot3(sub3(c, a), sub3(c, a)) * cotB);
}
struct Look {   // the triangles of a mesh with their shapes
    std::vector<Tri3> tris;
    std::vector<int> order;
    std::vector<bool> wide;
};
// The shapes of all triangles are those of a mesh with concrete positions, so that there is a mesh with these shapes.
static Look look(const Net &n, unsigned seed) {
    std::vector<std::array<double, 3>> w(n.p.size());
    unsigned r = seed * 2654435761u + 12345u;
    for (bool ok = false; !ok;) {
        for (auto &p : w) for (auto &x : p) { r = r * 1664525u + 1013904223u; x = (int)((r >> 16) % 13) - 6; }
        ok = true;
        for (auto &t : n.tris) {
            double u[3], v[3];
            for (int d = 0; d < 3; d++) { u[d] = w[t[1]][d] - w[t[0]][d]; v[d] = w[t[2]][d] - w[t[0]][d]; }
            double x = u[1] * v[2] - u[2] * v[1], y = u[2] * v[0] - u[0] * v[2], z = u[0] * v[1] - u[1] * v[0];
            ok = ok && x * x + y * y + z * z > 1;
        }
    }
    Look l;
    l.tris = n.tris;
    for (auto &t : n.tris) {
        double q[3] = { 0, 0, 0 };
        for (int e = 0; e < 3; e++)
            for (int d = 0; d < 3; d++) { double x = w[t[(e + 1) % 3]][d] - w[t[e]][d]; q[e] += x * x; }
        int order = -1;
        for (int o = 0; o < 13; o++) {
            bool same = true;
            for (int a = 0; a < 3; a++)
                for (int b = 0; b < 3; b++) same = same && (RANK[o][a] < RANK[o][b]) == (q[a] < q[b]);
            if (same) order = o;
        }
        int top = longestOf(order);
        l.order.push_back(order);
        l.wide.push_back(q[top] > q[(top + 1) % 3] + q[(top + 2) % 3]);
        shapeOfTriangle(at(n, t[0]), at(n, t[1]), at(n, t[2]), order, l.wide.back());
    }
    return l;
}
static double areaAt(const Net &n, const Look &l, int v) {
    double s = 0;
    for (int i = 0; i < (int)l.tris.size(); i++)
        for (int k = 0; k < 3; k++)
            if (l.tris[i][k] == v) s = s + share(at(n, v), at(n, l.tris[i][(k + 1) % 3]), at(n, l.tris[i][(k + 2) % 3]), l.order[i], l.wide[i], k);
    return s;
}
// |direction| = 1, and its direction is that of want
static void checkUnit(const Vec3 &u, const Vec3 &want, const char *unit, const char *dir) {
    sym_check_eq(dot3(u, u), 1.0, unit);
    double l = len(want);
    for (int d = 0; d < 3; d++) sym_check_eq(u[d] * l, want[d], dir);
}
extern "C" void sym_harness() {
#ifdef H_LAPLACIAN
    int type = sym_int("type", 0, 2), k = sym_int("shape", 0, sym_tier() ? 5 : 4);
    Shape sh = k == 0 ? tetra() : k == 1 ? wheel(4) : k == 2 ? bipyramid(3) : k == 3 ? without(bipyramid(4), { 0 }) : k == 4 ? joined(wheel(3), tetra(), 4) : icosa();
    Mesh m(inputOf(sh).vs, inputOf(sh).idx);
    place(m);
    Ids ids;
    State a = grab(m, ids, "before");
    if (!a.s.ok) return;
    Net n = netOf(a);
    const int nv = (int)n.p.size();
    sym_lazy(1);
    if (type == 1) {
        nonFlat(n);
        for (auto &loop : a.loops)   // the corners the code looks at across a boundary edge
            for (int i = 0; i < (int)loop.size(); i++) {
                Vec3 x = outer(at(n, loop[i]), at(n, loop[(i + 1) % loop.size()]), at(n, loop[(i + 2) % loop.size()]));
                sym_assume_lt(1e-6, len(x));
            }
    }
    EigenSparseMatrix S = getMeshLaplacian(m, type == 0 ? MeshLaplace::Adjacent : type == 1 ? MeshLaplace::Cotangent : MeshLaplace::Belkin08);
    sym_check(S.rows() == nv && S.cols() == nv, "the Laplacian has a row and a column per vertex");
    if (S.rows() != nv || S.cols() != nv) return;
    EigenMatrix L = EigenMatrix(S);
    auto border = [&](int i, int j) {
        for (auto &loop : a.loops)
            for (int t = 0; t < (int)loop.size(); t++) {
                int u = loop[t], v = loop[(t + 1) % loop.size()];
                if ((u == i && v == j) || (u == j && v == i)) return true;
            }
        return false;
    };
    double h = 0;
    int ne = 0;
    for (int i = 0; i < nv; i++)
        for (int j : n.nbr[i])
            if (i < j) { h = h + len(sub3(at(n, i), at(n, j))); ne++; }
    h = h / (double)ne;
    if (type == 2) sym_assume_lt(0.0, h);
    for (int i = 0; i < nv; i++) {
        double sum = 0;
        for (int j = 0; j < nv; j++) {
            sum = sum + L(i, j);
            if (j == i) continue;
            bool adj = std::count(n.nbr[i].begin(), n.nbr[i].end(), j) > 0;
            if (!adj) {
                sym_check_eq(L(i, j), 0.0, "entries between vertices that share no edge are zero");
                continue;
            }
            if (j > i) sym_check_eq(L(i, j), L(j, i), "the Laplacian is symmetric");
            if (type == 0) sym_check_eq(L(i, j), -1.0, "the adjacency Laplacian has -1 for every edge");
            if (type == 1 && !border(i, j)) sym_check_eq(L(i, j), -weight(n, i, j), "the cotangent Laplacian has minus the cotangent weight for every edge");
            if (type == 2) {
                Vec3 e = sub3(at(n, i), at(n, j));
                sym_check_eq(L(i, j), -std::exp(-dot3(e, e) / (4.0 * h)) / (4.0 * Pi * h), "the heat-kernel Laplacian has minus the Gaussian of the edge length for every edge");
                sym_check_lt(L(i, j), 0.0, "the heat-kernel weights are positive");
            }
        }
        sym_check_eq(sum, 0.0, "every row of the Laplacian adds up to zero");
    }
    sym_out("diagonal", L(0, 0));
    sym_reach(type == 0 ? "adjacency" : type == 1 ? "cotangent" : "heat kernel");
    if (!a.loops.empty()) sym_reach("boundary");
#endif
#ifdef H_AREA
    int kind = sym_int("case", 0, 3);
    if (kind == 0) {   // corner areas and measures of one triangle, every shape
        int order = sym_int("order", 0, 12);
        bool wide = sym_int("wide", 0, 1);
        if (!shapeExists(order, wide)) return;
        Shape sh;
        sh.pos = { { 0, 0, 0 }, { 2, 0, 0 }, { 0, 2, 0 } };
        sh.tris = { { 0, 1, 2 } };
        Mesh m(inputOf(sh).vs, inputOf(sh).idx);
        place(m);
        Ids ids;
        State a = grab(m, ids, "before");
        if (!a.s.ok) return;
        Net n = netOf(a);
        sym_drop_eps(1e-15);
        sym_lazy(1);
        nonFlat(n);
        Tri3 t = n.tris[0];
        shapeOfTriangle(at(n, t[0]), at(n, t[1]), at(n, t[2]), order, wide);
        Face *f = m.face(0)->isHole() ? m.face(1) : m.face(0);
        Vec3 x = outer(at(n, t[0]), at(n, t[1]), at(n, t[2]));
        sym_check_eq(f->area(), 0.5 * len(x), "the area of a triangle is half the length of its cross product");
        checkUnit(f->normal(), x, "the normal of a face is a unit vector", "the normal of a face is perpendicular to it on its counter-clockwise side");
        double sum = 0;
        for (int k = 0; k < 3; k++) {
            double s = m.vertex(t[k])->volonoiArea(f);
            sym_check_le(0.0, s, "the area of a corner is not negative");
            sym_check_eq(s, share(at(n, t[k]), at(n, t[(k + 1) % 3]), at(n, t[(k + 2) % 3]), order, wide, k), "the area of a corner is its mixed Voronoi area");
            sum = sum + s;
        }
        sym_check_eq(sum, 0.5 * len(x), "the corner areas add up to the area of the triangle");
        sym_out("area", f->area());
        sym_reach(wide ? "obtuse" : "acute");
    } else if (kind == 1) {   // the area of a vertex is the sum over its faces
        int k = sym_int("shape", 0, 1), like = sym_int("like", 0, sym_tier() ? 63 : 23);
        Shape sh = k ? bipyramid(4) : tetra();
        Mesh m(inputOf(sh).vs, inputOf(sh).idx);
        place(m);
        Ids ids;
        State a = grab(m, ids, "before");
        if (!a.s.ok) return;
        Net n = netOf(a);
        sym_drop_eps(1e-15);
        sym_lazy(1);
        nonFlat(n);
        int v = k ? 0 : sym_int("vertex", 0, 3);
        Look l = look(n, like);
        sym_check_eq(m.vertex(v)->volonoiArea(), areaAt(n, l, v), "the area of a vertex is the sum of its corner areas");
        sym_reach("vertex area");
    } else if (kind == 2) {   // vertex normals
        int k = sym_int("shape", 0, 1);
        Shape sh = k ? bipyramid(4) : tetra();
        Mesh m(inputOf(sh).vs, inputOf(sh).idx);
        place(m);
        Ids ids;
        State a = grab(m, ids, "before");
        if (!a.s.ok) return;
        Net n = netOf(a);
        sym_lazy(1);
        nonFlat(n);
        for (int v = 0; v < (int)n.p.size(); v++) {
            Vec3 want(0.0, 0.0, 0.0);
            for (auto &t : n.tris)
                for (int c = 0; c < 3; c++)
                    if (t[c] == v) {
                        Vec3 e1 = sub3(at(n, t[(c + 1) % 3]), at(n, v)), e2 = sub3(at(n, t[(c + 2) % 3]), at(n, v));
                        want = add3(want, mul3(cross3(e1, e2), 1.0 / (dot3(e1, e1) * dot3(e2, e2))));
                    }
            sym_note("the weighted sum of the face normals around a vertex is not zero");
            sym_assume_ne(len(want), 0.0);
            checkUnit(m.vertex(v)->normal(), want, "the normal of a vertex is a unit vector", "the normal of a vertex is the weighted mean of the normals of its faces");
        }
        sym_reach("vertex normal");
    } else {   // a planar convex polygon: the hole of a wheel, its corners given by two coordinates in a plane anywhere
        int N = sym_int("corners", 4, sym_tier() ? 6 : 5);
        Mesh m(inputOf(wheel(N)).vs, inputOf(wheel(N)).idx);
        static const double R[3][3][3] = { { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } }, { { 3, 0, 4 }, { 0, -5, 0 }, { 4, 0, -3 } }, { { 2, -1, 2 }, { 2, 2, -1 }, { -1, 2, 2 } } };
        int fr = sym_int("frame", 0, 2);
        const double s2 = fr == 0 ? 1 : fr == 1 ? 25 : 9;   // length of the normal of the frame
        Vec3 o = symVec("o", -8, 8);
        Face *f = nullptr;
        for (size_t i = 0; i < m.numFaces(); i++) if (m.face((int)i)->isHole()) f = m.face((int)i);
        if (!f) { sym_fail("the wheel has a hole"); return; }
        std::vector<Vertex *> vs;
        for (auto it = f->v_begin(); it != f->v_end(); ++it) vs.push_back(it.ptr());
        std::vector<std::array<double, 2>> q;
        for (int i = 0; i < N; i++) {
            q.push_back({ sym_real(("u" + std::to_string(i)).c_str(), -8, 8), sym_real(("v" + std::to_string(i)).c_str(), -8, 8) });
            Vec3 p(0.0, 0.0, 0.0);
            for (int d = 0; d < 3; d++) p[d] = o[d] + q[i][0] * R[fr][0][d] + q[i][1] * R[fr][1][d];
            vs[i]->setPos(p);
        }
        auto turn = [&](int i, int j, int k) { return (q[j][0] - q[i][0]) * (q[k][1] - q[i][1]) - (q[j][1] - q[i][1]) * (q[k][0] - q[i][0]); };
        sym_lazy(1);
        sym_note("the corners of a polygonal face lie in a plane and turn counter-clockwise");
        double twice = 0;
        for (int i = 0; i < N; i++)
            for (int j = i + 1; j < N; j++)
                for (int k = j + 1; k < N; k++) sym_assume_lt(0.0, turn(i, j, k));
        for (int i = 0; i < N; i++) twice = twice + (q[i][0] * q[(i + 1) % N][1] - q[i][1] * q[(i + 1) % N][0]);
        sym_assume_lt(0.0, twice);
        double turns = 0;   // positive as each of its terms
        for (int i = 0; i < N; i++) turns = turns + turn(i, (i + 1) % N, (i + 2) % N);
        sym_assume_lt(0.0, turns);
        sym_check_eq(f->area(), 0.5 * twice * s2, "the area of a convex polygon is its Euclidean area");
        Vec3 nrm = f->normal();
        Vec3 up = cross3(Vec3(R[fr][0][0], R[fr][0][1], R[fr][0][2]), Vec3(R[fr][1][0], R[fr][1][1], R[fr][1][2]));
        for (int d = 0; d < 3; d++) sym_check_eq(nrm[d] * s2, up[d], "the normal of a convex polygon is the unit normal of its plane");
        sym_out("area", f->area());
        sym_reach("polygon");
    }
#endif
#ifdef H_CURVATURE
    int k = sym_int("shape", 0, 1), like = sym_int("like", 0, sym_tier() ? 63 : 23);
    Shape sh = k ? bipyramid(4) : tetra();
    Mesh m(inputOf(sh).vs, inputOf(sh).idx);
    place(m);
    Ids ids;
    State a = grab(m, ids, "before");
    if (!a.s.ok) return;
    Net n = netOf(a);
    sym_drop_eps(1e-15);
    sym_note("the 1e-20 that keeps a cotangent finite counts as zero");
    sym_lazy(1);
    nonFlat(n);
    int v = sym_int("vertex", 0, k ? 1 : 3);
    Look l = look(n, like);
    bool wide = false;
    for (int i = 0; i < (int)n.tris.size(); i++) wide = wide || (l.wide[i] && std::count(n.tris[i].begin(), n.tris[i].end(), v));
    double A = areaAt(n, l, v), sum = 0;
    sym_note("the area and the normal of the vertex are not zero");
    sym_assume_lt(0.0, A);
    Vec3 lap(0.0, 0.0, 0.0), nrm(0.0, 0.0, 0.0);
    for (auto &t : n.tris)
        for (int c = 0; c < 3; c++)
            if (t[c] == v) {
                Vec3 e1 = sub3(at(n, t[(c + 1) % 3]), at(n, v)), e2 = sub3(at(n, t[(c + 2) % 3]), at(n, v));
                Vec3 x = cross3(e1, e2);
                sum = sum + std::atan2(len(x), dot3(e1, e2));
                nrm = add3(nrm, mul3(x, 1.0 / (dot3(e1, e1) * dot3(e2, e2))));
            }
    for (int j : n.nbr[v]) lap = add3(lap, mul3(sub3(at(n, j), at(n, v)), 2.0 * weight(n, v, j)));
    sym_assume_ne(len(nrm), 0.0);
    if (sym_int("mean", 0, 1)) {
        double H = m.vertex(v)->H();
        sym_check_eq(H * (2.0 * A) * len(nrm), -dot3(lap, nrm), "mean curvature is minus the normal part of the cotangent sum over twice the area");
        sym_out("H", H);
        sym_reach("mean");
    } else {
        double K = m.vertex(v)->K();
        sym_check_eq(K * A, 2.0 * Pi - sum, "Gaussian curvature is the angle defect over the area");
        sym_out("K", K);
        sym_reach("Gaussian");
    }
    sym_reach(wide ? "obtuse" : "acute");
#endif
#ifdef H_STATISTICS
    int k = sym_int("shape", 0, sym_tier() ? 4 : 3);
    Shape sh = k == 0 ? tetra() : k == 1 ? bipyramid(4) : k == 2 ? joined(tetra(), tetra(), 8) : k == 3 ? wheel(5) : icosa();
    Mesh m(inputOf(sh).vs, inputOf(sh).idx);
    place(m);
    Ids ids;
    State a = grab(m, ids, "before");
    if (!a.s.ok) return;
    Net n = netOf(a);
    sym_lazy(1);
    nonFlat(n);
    double L = 0, D = 0, A = 0;
    int ne = 0;
    const bool closed = a.loops.empty();
    for (int i = 0; i < (int)n.p.size(); i++)
        for (int j : n.nbr[i]) {
            if (j < i) continue;
            ne++;
            L = L + len(sub3(at(n, i), at(n, j)));
            if (!closed) continue;
            int o[2] = { 0, 0 }, c = 0;
            for (auto &q : n.tris)
                for (int e = 0; e < 3; e++)
                    if ((q[e] == i && q[(e + 1) % 3] == j) || (q[e] == j && q[(e + 1) % 3] == i)) { if (c < 2) o[c] = q[(e + 2) % 3]; c++; }
            // the angle between the two faces: pi when they lie in one plane on different sides of the edge
            Vec3 x = cross3(sub3(at(n, i), at(n, o[0])), sub3(at(n, j), at(n, o[0]))), y = cross3(sub3(at(n, i), at(n, o[1])), sub3(at(n, j), at(n, o[1])));
            D = D + std::acos(dot3(x, y) / (len(x) * len(y)));
        }
    for (auto &t : n.tris) A = A + 0.5 * len(outer(at(n, t[0]), at(n, t[1]), at(n, t[2])));
    sym_check((int)m.numEdges() == ne, "every undirected edge is counted once");
    sym_check_eq(m.getMeanEdgeLength() * (double)ne, L, "the mean edge length is the mean over all edges");
    if (closed) {
        sym_check_eq(m.getMeanDihedralAngle() * (double)ne, D, "the mean dihedral angle is the mean over all edges");
        sym_check_eq(m.getMeanFaceArea() * (double)n.tris.size(), A, "the mean face area is the mean over all faces");
        sym_out("dihedral", m.getMeanDihedralAngle());
    }
    sym_out("length", m.getMeanEdgeLength());
    sym_reach(closed ? "closed" : "open");
#endif
}
