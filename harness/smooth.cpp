// C17, C18, C19: smoothing filters against plain formulas on symbolic positions.
#include "netlib.h"
#include "filters/filters.h"
#include "symsolve_real.h"
#include "symsolve.h"

static Shape shapeOf(int k) {
    switch (k) {
        case 0: return tetra();
        case 1: return wheel(4);
        case 2: return bipyramid(4);
        case 3: return grid(3, 2);
        case 4: return joined(wheel(3), tetra(), 4);
        default: return icosa();
    }
}
extern "C" void sym_harness() {
#ifdef H_LAPLACE
    int cot = sym_int("cotangent", 0, 1);
    int k = cot ? sym_int("shape", 0, 2) : sym_int("shape", 0, sym_tier() ? 5 : 4);
    Mesh m(inputOf(shapeOf(k)).vs, inputOf(shapeOf(k)).idx);
    place(m);
    lockSome(m);
    Ids ids;
    State a = grab(m, ids, "before");
    if (!a.s.ok) return;
    int it = sym_int("passes", 0, cot ? 1 : sym_tier() ? 4 : 3);
    double eps = sym_real("strength", -2, 2);
    if (cot) nonFlat(netOf(a));
    sym_note("weight sums of the neighbours are not zero");
    sym_div_policy(SYM_DIV_ASSUME);
    sym_lazy(cot);
    Net n = netOf(a);
    int r = sym_try([&] { smoothLaplacian(m, eps, cot != 0, it); });
    if (r == 1) { sym_assume(false); return; }   // a weight sum of zero is reported
    sym_check(r == 0, "smoothing returns");
    State b = grab(m, ids, "after smoothing");
    for (int i = 0; i < it; i++) pass(n, eps, cot != 0);
    compare(m, a, b, n, "each pass moves a free vertex by the strength times its offset to the weighted mean of its neighbours", "locked and boundary vertices stay");
    sym_reach(cot ? "cotangent" : "uniform");
    if (it > 1) sym_reach("passes");
    if (!a.loops.empty()) sym_reach("boundary");
#endif
#ifdef H_TAUBIN
    int k = sym_int("shape", 0, sym_tier() ? 5 : 4);
    Mesh m(inputOf(shapeOf(k)).vs, inputOf(shapeOf(k)).idx);
    place(m);
    lockSome(m);
    Ids ids;
    State a = grab(m, ids, "before");
    if (!a.s.ok) return;
    int it = sym_int("iterations", 0, k == 5 ? 1 : sym_tier() ? 3 : 2);
    double sh = sym_real("shrink", -2, 2), in = sym_real("inflate", -2, 2);
    Net n = netOf(a);
    smoothTaubin(m, sh, in, it);
    State b = grab(m, ids, "after smoothing");
    for (int i = 0; i < it; i++) {
        pass(n, sh, false);
        pass(n, -in, false);
    }
    compare(m, a, b, n, "each iteration is a shrinking pass followed by an inflating pass", "locked and boundary vertices stay");
    sym_reach("taubin");
    if (it > 1) sym_reach("iterations");
    if (!a.loops.empty()) sym_reach("boundary");
#endif
#ifdef H_FAIRING
    int k = sym_int("shape", 0, sym_tier() ? 3 : 2);
    Shape sh = k == 0 ? tetra() : k == 1 ? bipyramid(3) : k == 2 ? bipyramid(4) : icosa();
    Mesh m(inputOf(sh).vs, inputOf(sh).idx);
    place(m);
    Ids ids;
    State a = grab(m, ids, "before");
    if (!a.s.ok) return;
    int it = sym_int("iterations", 0, sym_tier() ? 3 : 2);
    double lam = sym_real("lambda", -2, 2);
    nonFlat(netOf(a));
    sym_lazy(1);
    symsolve::log().clear();
    int left = it;
    symsolve::onSolve() = [&](const symsolve::System &s) {
        if (--left < 1 || s.X.cols() != 3) return;
        Net q = netOf(a);
        if (s.X.rows() != (long)q.p.size()) return;
        for (int i = 0; i < (int)q.p.size(); i++) for (int d = 0; d < 3; d++) q.p[i][d] = s.X(i, d);
        nonFlat(q);
    };
    Net n = netOf(a);
    implicitFairing(m, lam, it);
    State b = grab(m, ids, "after fairing");
    if (!b.s.ok) return;
    sym_check(a.order == b.order && a.tris == b.tris && a.loops == b.loops && a.boundary == b.boundary && a.s.F == b.s.F && a.locked == b.locked, "connectivity and locks are unchanged");
    auto &log = symsolve::log();
    sym_check((int)log.size() == it, "one linear system per iteration");
    const int nv = (int)n.p.size();
    for (int t = 0; t < (int)log.size(); t++) {
        auto &s = log[t];
        sym_check(s.A.rows() == nv && s.A.cols() == nv && s.B.rows() == nv && s.B.cols() == 3, "the system has a row and a column per vertex and one right-hand side per coordinate");
        if (s.A.rows() != nv || s.A.cols() != nv || s.B.rows() != nv || s.B.cols() != 3) return;
        // (1 + lambda) Y_i - lambda sum_j w_ij Y_j / sum_j w_ij = X_i, row by row, up to a factor of the row
        for (int i = 0; i < nv; i++) {
            double sum = 0;
            for (int j : n.nbr[i]) sum = sum + weight(n, i, j);
            const double dg = s.A(i, i), want = 1.0 + lam;
            for (int j = 0; j < nv; j++) {
                if (j == i) continue;
                bool adj = std::count(n.nbr[i].begin(), n.nbr[i].end(), j) > 0;
                if (!adj) sym_check_eq(s.A(i, j), 0.0, "the system couples a vertex only to its neighbours");
                else sym_check_eq(s.A(i, j) * want, dg * (-lam * weight(n, i, j) / sum), "the system is that of backward diffusion with the cotangent weights of the current positions");
            }
            for (int d = 0; d < 3; d++) sym_check_eq(s.B(i, d) * want, dg * n.p[i][d], "the right-hand side is the current position");
        }
        for (int i = 0; i < nv; i++) for (int d = 0; d < 3; d++) n.p[i][d] = s.X(i, d);
    }
    for (int i = 0; i < nv; i++)
        for (int d = 0; d < 3; d++) sym_check_eq(m.vertex(i)->pos()[d], n.p[i][d], "every vertex takes its own row of the solution");
    sym_reach(it ? "fairing" : "none");
    sym_outi("systems", (long)log.size());
#endif
}
