// C20, C34: denoisers against plain formulas on symbolic positions.
#include "netlib.h"
#ifdef H_L0
#include "minmax.h"
#endif
#include "filters/filters.h"
#include "symsolve_real.h"
#include "symsolve.h"

static double len(const Vec3 &a) { return std::sqrt(dot3(a, a)); }
static Vec3 mid(const Net &n, const Tri3 &t) {
    Vec3 a = at(n, t[0]), b = at(n, t[1]), c = at(n, t[2]);
    return Vec3((a[0] + b[0] + c[0]) / 3.0, (a[1] + b[1] + c[1]) / 3.0, (a[2] + b[2] + c[2]) / 3.0);
}
static Vec3 outer(const Net &n, const Tri3 &t) { return cross3(sub3(at(n, t[1]), at(n, t[0])), sub3(at(n, t[2]), at(n, t[0]))); }
static Vec3 mul(const Vec3 &a, double k) { return Vec3(a[0] * k, a[1] * k, a[2] * k); }
static Vec3 plus3(const Vec3 &a, const Vec3 &b) { return Vec3(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
static double meanEdge(const Net &n) {
    double s = 0;
    int k = 0;
    for (size_t i = 0; i < n.p.size(); i++)
        for (int j : n.nbr[i])
            if ((int)i < j) { s = s + len(sub3(at(n, (int)i), at(n, j))); k++; }
    return s / (double)k;
}
static bool adjacent(const Tri3 &a, const Tri3 &b) {
    int c = 0;
    for (int i : a) for (int j : b) if (i == j) c++;
    return c == 2;
}
static double kernel(double x, double s, int region) {
    const double c = 1.0 / (std::sqrt(2.0 * Pi) * s);
    if (region == 0) return c * std::exp(-x * x / (s * s));
    if (region == 1) {
        const double a = 4.0 - x / s;
        return c * (1.0 / (16.0 * std::exp(2.0))) * (a * a * a * a);
    }
    return 0.0;
}
static void inRegion(double x, double s, int region) {
    if (region == 0) sym_assume_lt(x, 2.0 * s), sym_assume_lt(x, 4.0 * s);
    if (region != 0) sym_assume_le(2.0 * s, x);
    if (region == 1) sym_assume_lt(x, 4.0 * s);
    if (region == 2) sym_assume_le(4.0 * s, x);
}
#ifdef H_FILTER
// one iteration of the filter on positions n; kernel regions are assumed as it goes
static void filter(Net &n, double sc, double sn, bool bilateral, int rc, int rn, int odd, double avg) {
    const int nf = (int)n.tris.size();
    std::vector<Vec3> nn;
    int pair = 0;
    std::map<std::pair<int, int>, int> reg;
    for (int i = 0; i < nf; i++)
        for (int j = i + 1; j < nf; j++)
            if (adjacent(n.tris[i], n.tris[j])) {
                int r = pair++ == odd ? (rc + 1) % 3 : rc;
                reg[{ i, j }] = reg[{ j, i }] = r;
                inRegion(len(sub3(mid(n, n.tris[i]), mid(n, n.tris[j]))), sc * avg, r);
                if (bilateral) {
                    Vec3 a = outer(n, n.tris[i]), b = outer(n, n.tris[j]);
                    inRegion(len(sub3(mul(a, 1.0 / len(a)), mul(b, 1.0 / len(b)))), sn, rn);
                }
            }
    for (int i = 0; i < nf; i++) {
        Vec3 s(0.0, 0.0, 0.0);
        for (int j = 0; j < nf; j++) {
            if (!adjacent(n.tris[i], n.tris[j])) continue;
            Vec3 o = outer(n, n.tris[j]), ci = mid(n, n.tris[i]), cj = mid(n, n.tris[j]);
            double w = 0.5 * len(o) * kernel(len(sub3(ci, cj)), sc * avg, reg[{ i, j }]);
            if (bilateral) {
                Vec3 a = outer(n, n.tris[i]);
                w = w * kernel(len(sub3(mul(a, 1.0 / len(a)), mul(o, 1.0 / len(o)))), sn, rn);
            }
            s = plus3(s, mul(o, w / len(o)));
        }
        double l = len(s);
        bool none = true;
        for (int j = 0; j < nf; j++) if (adjacent(n.tris[i], n.tris[j]) && reg[{ i, j }] != 2 && !(bilateral && rn == 2)) none = false;
        if (none) { nn.push_back(Vec3(0.0, 0.0, 0.0)); continue; }
        sym_assume_ne(l, 0.0);
        nn.push_back(mul(s, 1.0 / l));
    }
    std::vector<P3> q = n.p;
    for (size_t v = 0; v < n.p.size(); v++) {
        double area = 0;
        Vec3 d(0.0, 0.0, 0.0);
        for (int j = 0; j < nf; j++) {
            const Tri3 &t = n.tris[j];
            if (t[0] != (int)v && t[1] != (int)v && t[2] != (int)v) continue;
            double a = 0.5 * len(outer(n, t));
            area = area + a;
            d = plus3(d, mul(nn[j], a * dot3(nn[j], sub3(mid(n, t), at(n, (int)v)))));
        }
        for (int k = 0; k < 3; k++) q[v][k] = n.p[v][k] + d[k] / area;
    }
    n.p = q;
}
#endif
#ifdef H_L0
struct EdgeTerm {   // the edge p1-p3 with its two opposite corners p2 and p4
    int id[4];
    double D[4];
    double value(const std::vector<P3> &cur, double *y) const {
        for (int d = 0; d < 3; d++) y[d] = D[0] * cur[id[0]][d] + D[1] * cur[id[1]][d] + D[2] * cur[id[2]][d] + D[3] * cur[id[3]][d];
        return y[0] * y[0] + y[1] * y[1] + y[2] * y[2];
    }
};
static std::vector<EdgeTerm> edgeTerms(const Net &n) {
    std::vector<EdgeTerm> r;
    for (int i = 0; i < (int)n.p.size(); i++)
        for (int j : n.nbr[i]) {
            if (j < i) continue;
            int o[2] = { 0, 0 }, c = 0;
            for (auto &q : n.tris)
                for (int e = 0; e < 3; e++)
                    if ((q[e] == i && q[(e + 1) % 3] == j) || (q[e] == j && q[(e + 1) % 3] == i)) o[c++] = q[(e + 2) % 3];
            Vec3 p1 = at(n, i), p2 = at(n, o[0]), p3 = at(n, j), p4 = at(n, o[1]);
            const double S = 0.5 * len(cross3(sub3(p2, p1), sub3(p2, p3))), T = 0.5 * len(cross3(sub3(p4, p1), sub3(p4, p3)));
            const double l2 = dot3(sub3(p1, p3), sub3(p1, p3));
            r.push_back({ { i, o[0], j, o[1] },
                          { (S * dot3(sub3(p4, p3), sub3(p3, p1)) + T * dot3(sub3(p1, p3), sub3(p3, p2))) / (l2 * (S + T)), T / (S + T),
                            (S * dot3(sub3(p3, p1), sub3(p1, p4)) + T * dot3(sub3(p2, p1), sub3(p1, p3))) / (l2 * (S + T)), S / (S + T) } });
        }
    return r;
}
#endif
#ifdef H_STEPS
// The mean edge length is a given number here; how it enters is decided by the cases with freely placed vertices.
static double meanLength = 1.0;
extern "C" __attribute__((used)) double stub_mean(const Mesh *) { return meanLength; }
#endif
extern "C" void sym_harness() {
#ifdef H_STEPS
    // several iterations are single ones after one another, and a moved input gives a moved output
    bool bil = sym_int("bilateral", 0, 1);
    static const double widths[4] = { 0.25, 0.5, 1.0, 4.0 };
    const double sc = widths[sym_int("width", 0, 3)], sn = bil ? widths[sym_int("normals", 1, 3)] : 1.0;
    const int its = sym_int("iterations", 0, 3), k = sym_int("shape", 0, 2);
    Input in = inputOf(k == 0 ? bipyramid(5) : k == 1 ? icosa() : torus(4, 4));
    for (size_t i = 0; i < in.vs.size(); i++) in.vs[i] = add3(in.vs[i], Vec3(0.125 * ((7 * i) % 5), 0.125 * ((3 * i) % 4), 0.0625 * ((5 * i) % 7)));
    const Vec3 t = symVec("t", -64, 64);
    Mesh m(in.vs, in.idx), one(in.vs, in.idx), still(in.vs, in.idx);
    for (Mesh *x : { &m, &one })
        for (int i = 0; i < (int)x->numVertices(); i++) x->vertex(i)->setPos(add3(x->vertex(i)->pos(), t));
    for (Mesh *x : { &m, &one, &still })
        if (k == 1) x->vertex(0)->lock(), x->vertex(3)->lock();
    auto run = [&](Mesh &x, int n) { if (bil) denoiseNormalBilateral(x, sc, sn, n); else denoiseNormalGaussian(x, sc, n); };
    run(m, its);
    run(still, its);
    for (int i = 0; i < its; i++) run(one, 1);
    for (int i = 0; i < (int)m.numVertices(); i++)
        for (int d = 0; d < 3; d++) {
            const double a = m.vertex(i)->pos()[d];
            const double e = a - one.vertex(i)->pos()[d], f = a - (still.vertex(i)->pos()[d] + t[d]);
            sym_check_le(e, 1e-9, "several iterations are single iterations one after another");
            sym_check_le(-1e-9, e, "several iterations are single iterations one after another");
            sym_check_le(f, 1e-9, "translating the input translates the output");
            sym_check_le(-1e-9, f, "translating the input translates the output");
        }
    for (int d = 0; d < 3; d++) sym_out("p", m.vertex(0)->pos()[d]);
    sym_reach(its == 0 ? "none" : its == 1 ? "one" : "several");
#endif
#ifdef H_FILTER
    int kind = sym_int("case", 0, 3);
    bool bil = sym_int("bilateral", 0, 1);
    if (kind == 0) {   // a hole of more than three sides is a face that is no triangle
        Mesh m(inputOf(wheel(4)).vs, inputOf(wheel(4)).idx);
        place(m);
        for (int i = 0; i < (int)m.numVertices(); i++) m.vertex(i)->lock();
        sym_lazy(1);
        Ids ids;
        State a = grab(m, ids, "before");
        nonFlat(netOf(a));
        int r = sym_try([&] { if (bil) denoiseNormalBilateral(m, 1.0, 1.0, 1); else denoiseNormalGaussian(m, 1.0, 1); });
        sym_check(r != 0, "a mesh with a face that is no triangle is rejected");
        sym_reach("rejected");
        return;
    }
    bool free = kind == 2;   // otherwise locked, which keeps the preliminary smoothing out
    Shape sh = kind == 3 ? bipyramid(3) : tetra();
    Mesh m(inputOf(sh).vs, inputOf(sh).idx);
    place(m);
    if (!free) for (int i = 0; i < (int)m.numVertices(); i++) m.vertex(i)->lock();
    Ids ids;
    State a = grab(m, ids, "before");
    if (!a.s.ok) return;
    double sc = sym_real("sigma", 0.015625, 16), sn = bil ? sym_real("sigmaNormal", 0.015625, 8) : 1.0;
    int rc = sym_int("centreRegion", 0, 2), rn = bil ? sym_int("normalRegion", 0, 2) : 0;
    int odd = sym_int("oddPair", 0, kind == 1 ? 6 : 0) - 1;
    int it = kind == 1 && !bil && sym_tier() ? sym_int("iterations", 0, 1) : 1;
    Net n = netOf(a);
    sym_lazy(1);
    sym_note("face areas, mean edge length, kernel widths and filtered normals are not zero unless every kernel weight is");
    double avg = meanEdge(n);
    sym_assume_lt(1e-3, avg);
    if (it) {
        if (free) for (int i = 0; i < 3; i++) { pass(n, 0.5, false); pass(n, -0.53, false); }
        nonFlat(n);
        filter(n, sc, sn, bil, rc, rn, odd, avg);
    }
    if (bil) denoiseNormalBilateral(m, sc, sn, it);
    else denoiseNormalGaussian(m, sc, it);
    State b = grab(m, ids, "after denoising");
    if (!b.s.ok) return;
    sym_check(a.order == b.order && a.tris == b.tris && a.loops == b.loops && a.boundary == b.boundary && a.s.F == b.s.F && a.locked == b.locked, "connectivity and locks are unchanged");
    for (size_t i = 0; i < n.p.size(); i++)
        for (int d = 0; d < 3; d++) sym_check_eq(m.vertex((int)i)->pos()[d], n.p[i][d], "every vertex moves by the area-weighted mean of its offsets to the face centroids along the filtered normals");
    for (int d = 0; d < 3; d++) sym_out("p", m.vertex(0)->pos()[d]);
    sym_reach(bil ? "bilateral" : "gaussian");
    if (free) sym_reach("smoothed first");
#endif
#ifdef H_L0
    if (sym_int("flat", 0, 1)) {
        // p2 and p4 in the plane of p1 and p3, on different sides: every affine map sends the combination to zero
        Vec3 p1 = symVec("a", -8, 8), u = symVec("u", -4, 4), v = symVec("v", -4, 4);
        double s = sym_real("s", -4, 4), h = sym_real("h", 0.0625, 4), t = sym_real("t", -4, 4), g = sym_real("g", 0.0625, 4);
        sym_assume_lt(1e-3, len(cross3(u, v)));
        Vec3 p2 = plus3(p1, plus3(mul(u, s), mul(v, h))), p4 = plus3(p1, plus3(mul(u, t), mul(v, -g))), p3 = plus3(p1, u);
        const double A = 0.5 * h, B = 0.5 * g;   // the areas up to |u x v|
        const double l2 = dot3(u, u);
        const double D[4] = { (A * dot3(sub3(p4, p3), sub3(p3, p1)) + B * dot3(sub3(p1, p3), sub3(p3, p2))) / (l2 * (A + B)), B / (A + B),
                              (A * dot3(sub3(p3, p1), sub3(p1, p4)) + B * dot3(sub3(p2, p1), sub3(p1, p3))) / (l2 * (A + B)), A / (A + B) };
        for (int d = 0; d < 3; d++) sym_check_eq(D[0] * p1[d] + D[1] * p2[d] + D[2] * p3[d] + D[3] * p4[d], 0.0, "the edge operator vanishes on flat neighbourhoods");
        sym_reach("flat");
        return;
    }
    int k = sym_int("shape", 0, 1);
    bool free = sym_int("free", 0, 1);
    Shape sh = k == 0 ? tetra() : bipyramid(3);
    Mesh m(inputOf(sh).vs, inputOf(sh).idx), m0(inputOf(sh).vs, inputOf(sh).idx);
    place(m);
    if (!free) for (int i = 0; i < (int)m.numVertices(); i++) m.vertex(i)->lock();
    Ids ids;
    State a = grab(m, ids, "before");
    if (!a.s.ok) return;
    Net n = netOf(a);
    const int nv = (int)n.p.size();
    const std::vector<P3> p0 = n.p;
    for (int i = 0; i < nv; i++) m0.vertex(i)->setPos(Vec3(p0[i][0], p0[i][1], p0[i][2]));
    sym_lazy(1);
    sym_generic(1);
    nonFlat(n);
    const double avg = meanEdge(n);
    sym_assume_lt(1e-3, avg);
    double alpha = sym_real("alpha", 0, 4);
    const int steps = sym_int("steps", 0, sym_tier() ? 3 : 2);
    const double beta = steps == 0 ? 1000.0 : steps == 1 ? 800.0 : steps == 2 ? 600.0 : 400.0;
    if (free) {
        for (int i = 0; i < 3; i++) { pass(n, 0.5, false); pass(n, -0.53, false); }
        nonFlat(n);
    }
    const double lambda = 0.02 * avg * avg * m0.getMeanDihedralAngle();   // the mean angle is checked for itself elsewhere
    const auto terms = edgeTerms(n);
    // which edges are above the threshold: all, none, all but one or only one
    const int pattern = steps ? sym_int("pattern", 0, 2 * (sym_tier() ? (int)terms.size() : 3) + 1) : 0;
    auto above = [&](int e) { return pattern / 2 == e + 1 ? pattern % 2 == 0 : pattern % 2 == 1; };
    auto threshold = [&](const std::vector<P3> &cur, double be) {
        for (size_t e = 0; e < terms.size(); e++) {
            double y[3];
            if (above((int)e)) sym_assume_le(lambda / be, terms[e].value(cur, y));
            else sym_assume_lt(terms[e].value(cur, y), lambda / be);
        }
    };
    double al = alpha * avg, be = beta * avg, nb = be;
    if (steps) threshold(p0, be);
    symsolve::log().clear();
    int left = steps;
    symsolve::onSolve() = [&](const symsolve::System &s) {
        nb = nb * std::sqrt(2.0);
        if (--left < 1 || s.X.rows() != nv || s.X.cols() != 3) return;
        std::vector<P3> c = p0;
        for (int i = 0; i < nv; i++) for (int d = 0; d < 3; d++) c[i][d] = s.X(i, d);
        threshold(c, nb);
    };
    denoiseL0Smooth(m, alpha, beta);
    State b = grab(m, ids, "after denoising");
    if (!b.s.ok) return;
    sym_check(a.order == b.order && a.tris == b.tris && a.loops == b.loops && a.boundary == b.boundary && a.s.F == b.s.F && a.locked == b.locked, "connectivity and locks are unchanged");
    auto &log = symsolve::log();
    sym_check((int)log.size() == steps, "one system per weight below the bound");
    if ((int)log.size() != steps) return;
    std::vector<P3> cur = p0;
    const double R[4] = { 1, -1, 1, -1 };
    for (int t = 0; t < steps; t++) {
        auto &s = log[t];
        sym_check(s.A.rows() == nv && s.A.cols() == nv && s.B.rows() == nv && s.B.cols() == 3, "the system has a row per vertex and one right-hand side per coordinate");
        if (s.A.rows() != nv || s.A.cols() != nv || s.B.rows() != nv || s.B.cols() != 3) return;
        std::vector<std::vector<double>> A(nv, std::vector<double>(nv, 0.0)), B(nv, std::vector<double>(3, 0.0));
        for (int i = 0; i < nv; i++) { A[i][i] = 1.0; for (int d = 0; d < 3; d++) B[i][d] = p0[i][d]; }
        for (size_t e = 0; e < terms.size(); e++) {
            const EdgeTerm &T = terms[e];
            double y[3];
            T.value(cur, y);
            for (int x = 0; x < 4; x++) {
                for (int z = 0; z < 4; z++) A[T.id[x]][T.id[z]] = A[T.id[x]][T.id[z]] + al * R[x] * R[z] + be * T.D[x] * T.D[z];
                if (above((int)e)) for (int d = 0; d < 3; d++) B[T.id[x]][d] = B[T.id[x]][d] + be * T.D[x] * y[d];
            }
        }
        for (int i = 0; i < nv; i++) {
            for (int j = 0; j < nv; j++) sym_check_eq(s.A(i, j), A[i][j], "the matrix is that of the data, regularisation and edge terms with the current weights");
            for (int d = 0; d < 3; d++) sym_check_eq(s.B(i, d), B[i][d], "the right-hand side keeps the edge terms above the threshold only");
        }
        for (int i = 0; i < nv; i++) for (int d = 0; d < 3; d++) cur[i][d] = s.X(i, d);
        be = be * std::sqrt(2.0);
        al = al * 0.5;
    }
    for (int i = 0; i < nv; i++)
        for (int d = 0; d < 3; d++) sym_check_eq(m.vertex(i)->pos()[d], cur[i][d], "every vertex takes its own row of the last solution");
    sym_reach(steps ? "solved" : "no step");
    sym_outi("systems", (long)log.size());
#endif
}
