// C24: principal curvatures and directions from curvature tensors.
#ifdef H_FRAME
#include <algorithm>
#include <cmath>
#include <complex>
#include <functional>
#include <iostream>
#include <sstream>
#include <vector>
#define protected public   // to mark a factorisation as done
#include <Eigen/Dense>
#undef protected
#endif
#include "netlib.h"
#include "ops/ops.h"

#ifdef H_TENSOR
// the curvature tensors handed to the diagonalisation: one per vertex, with its frame
static std::vector<EigenMatrix2> theTensors;
static std::vector<LocalFrame> theFrames;
extern "C" __attribute__((used)) void stub_tensors(const Mesh *, std::vector<EigenMatrix2> *tensors, std::vector<LocalFrame> *frames) {
    *tensors = theTensors;
    *frames = theFrames;
}
extern "C" void sym_harness() {
    Mesh m(inputOf(tetra()).vs, inputOf(tetra()).idx);
    int kind = sym_int("case", 0, 1);
    sym_note("curvature tensors are arbitrary symmetric matrices");
    // any symmetric matrix: with an off-diagonal entry b its second diagonal entry is a + 2 b h for some h
    double a = sym_real("a", -16, 16), b = 0.0, c = 0.0, h = 0.0;
    int same = sym_int("umbilic", 0, 1), sb = same ? 0 : sym_int("sign b", -1, 1), sh = same ? 0 : sym_int("sign h", -1, 1);
    if (!same && !sb && !sh) return;
    if (kind == 1 && sb && sh) return;
    auto sign = [](double x, int s) { if (s > 0) sym_assume_lt(0.0, x); else if (s < 0) sym_assume_lt(x, 0.0); };
    sym_note("curvatures are equal or differ by more than 1e-5");
    if (sb) {
        b = sym_real("b", -16, 16);
        if (sh) h = sym_real("h", -1000, 1000);
        sign(b, sb);
        if (sh) sign(h, sh);
        c = a + 2.0 * b * h;
        sym_assume_lt(5e-6, sb > 0 ? b : -b);   // the curvatures differ by 2 |b| sqrt(1 + h^2)
    } else if (sh) {
        c = sym_real("c", -16, 16);
        sym_assume_lt(1e-5, sh > 0 ? c - a : a - c);
    } else c = a;
    // an orthonormal frame along the coordinate axes
    static const int P[6][3] = { { 0, 1, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 1, 0, 2 }, { 2, 1, 0 }, { 0, 2, 1 } };
    int f = sym_int("frame", 0, 5), flip = sym_int("flip", 0, 1);
    Vec3 e[3];
    for (int i = 0; i < 3; i++) e[i] = Vec3(0.0, 0.0, 0.0);
    e[0][P[f][0]] = 1.0;
    e[1][P[f][1]] = flip ? -1.0 : 1.0;
    e[2] = cross3(e[0], e[1]);
    EigenMatrix2 M, Z = EigenMatrix2::Zero();
    M << a, b, b, c;
    Vec3 ex(1.0, 0.0, 0.0), ey(0.0, 1.0, 0.0), ez(0.0, 0.0, 1.0);
    int v = f || flip ? 1 : sym_int("vertex", 0, kind ? 1 : 3);
    theTensors.clear();
    theFrames.clear();
    for (int i = 0; i < 4; i++) {
        bool own = kind == 1 || i == v;
        theTensors.push_back(i == v ? M : Z);
        theFrames.push_back(own ? LocalFrame(e[0], e[1], e[2]) : LocalFrame(ex, ey, ez));
    }
    sym_lazy(1);
    if (kind == 0 && !sym_tier() && (f || flip || v) && sb && sb * sh != (f % 2 ? 1 : -1)) return;   // every shape of tensor in one frame, some in each
    auto r = getPrincipalCurvatures(m, kind == 1);
    EigenVector &kmax = std::get<0>(r), &kmin = std::get<1>(r);
    EigenMatrix &tmax = std::get<2>(r), &tmin = std::get<3>(r);
    sym_check(kmax.size() == 4 && kmin.size() == 4 && tmax.rows() == 4 && tmin.rows() == 4 && tmax.cols() == 3 && tmin.cols() == 3, "there is a result per vertex");
    sym_check_le(kmin(v), kmax(v), "the maximum curvature is at least the minimum one");
    if (kind == 0) sym_check_eq(kmin(v) + kmax(v), a + c, "the curvatures add up to the trace of the tensor");
    if (kind == 0) sym_check_eq(kmin(v) * kmax(v), a * c - b * b, "the product of the curvatures is the determinant of the tensor");
    Vec3 p(tmax(v, 0), tmax(v, 1), tmax(v, 2)), q(tmin(v, 0), tmin(v, 1), tmin(v, 2));
    if (same) {
        sym_reach("umbilic");
        return;
    }
    sym_check_eq(dot3(p, p), 1.0, "the direction of the maximum curvature is a unit vector");
    sym_check_eq(dot3(q, q), 1.0, "the direction of the minimum curvature is a unit vector");
    sym_check_eq(dot3(p, q), 0.0, "the directions are orthogonal");
    sym_check_eq(dot3(p, e[2]), 0.0, "the direction of the maximum curvature is tangent");
    sym_check_eq(dot3(q, e[2]), 0.0, "the direction of the minimum curvature is tangent");
    double pu = dot3(p, e[0]), pv = dot3(p, e[1]);
    if (kind == 0) sym_check_eq(a * pu * pu + 2.0 * b * pu * pv + c * pv * pv, kmax(v), "the second form along the direction of the maximum is the maximum");
    // the directions are an orthonormal pair in the tangent plane, over which the second form adds up to the trace:
    // with the sum of the curvatures decided above this is the second form along the other direction, too
    if (kind == 1) {   // smoothing scales this tensor, the only one that is not zero, down
        double qu = dot3(q, e[0]), qv = dot3(q, e[1]);
        sym_check_eq(a * pu * qu + b * (pu * qv + pv * qu) + c * pv * qv, 0.0, "the directions diagonalise the tensor");
        sym_check_lt(0.0, (a * pu * pu + 2.0 * b * pu * pv + c * pv * pv) - (a * qu * qu + 2.0 * b * qu * qv + c * qv * qv), "the direction of the maximum has the larger second form");
    }
    sym_out("kmax", kmax(v));
    sym_out("kmin", kmin(v));
    sym_reach(kind ? "smoothed" : "apart");
}
#endif
#ifdef H_FRAME
// What the frames do not depend on is left open: the solutions of the fits, the rotations between normals and the
// weights of the faces may be any numbers.
#include <Eigen/Cholesky>
using DenseLDLT = Eigen::LDLT<Eigen::MatrixXd, Eigen::Upper>;
extern "C" __attribute__((used)) DenseLDLT *stub_compute(DenseLDLT *s, const Eigen::MatrixXd *A) {
    s->m_matrix = *A;
    s->m_isInitialized = true;
    s->m_info = Eigen::Success;
    return s;
}
extern "C" __attribute__((used)) void stub_solve(Eigen::VectorXd *dst, const Eigen::Solve<DenseLDLT, Eigen::VectorXd> *src, const void *) {
    const int n = (int)src->rhs().size();
    dst->resize(n);
    for (int i = 0; i < n; i++) (*dst)(i) = sym_fresh(-100, 100);
}
extern "C" __attribute__((used)) double stub_weight(const Vertex *, const Face *) { return sym_fresh(0.125, 100); }
EigenMatrix3 anyRotation(const Vec3 &, const Vec3 &) asm("stub_rotation") __attribute__((used));
EigenMatrix3 anyRotation(const Vec3 &, const Vec3 &) {
    EigenMatrix3 R;
    for (int i = 0; i < 9; i++) R(i / 3, i % 3) = sym_fresh(-1, 1);
    return R;
}
extern "C" void sym_harness() {
    int k = sym_int("shape", 0, 1);
    Shape sh = k ? bipyramid(4) : tetra();
    Mesh m(inputOf(sh).vs, inputOf(sh).idx);
    place(m);
    Ids ids;
    State a = grab(m, ids, "before");
    if (!a.s.ok) return;
    Net n = netOf(a);
    sym_note("fits, rotations between normals and weights of faces are arbitrary: the frames do not depend on them");
    sym_lazy(1);
    nonFlat(n);
    for (int v = 0; v < (int)n.p.size(); v++) {
        sym_note("the weighted sum of the face normals around a vertex is not zero");
        Vec3 want(0.0, 0.0, 0.0);
        for (auto &t : n.tris)
            for (int c = 0; c < 3; c++)
                if (t[c] == v) {
                    Vec3 e1 = sub3(at(n, t[(c + 1) % 3]), at(n, v)), e2 = sub3(at(n, t[(c + 2) % 3]), at(n, v));
                    want = add3(want, mul3(cross3(e1, e2), 1.0 / (dot3(e1, e1) * dot3(e2, e2))));
                }
        sym_assume_ne(std::sqrt(dot3(want, want)), 0.0);
    }
    std::vector<EigenMatrix2> tensors;
    std::vector<LocalFrame> frames;
    sym_generic(1);
    getCurvatureTensors(m, tensors, frames);
    sym_generic(0);
    sym_check(tensors.size() == n.p.size() && frames.size() == n.p.size(), "there is a tensor and a frame per vertex");
    if (frames.size() != n.p.size() || tensors.size() != n.p.size()) return;
    for (int v = 0; v < (int)n.p.size(); v++) {
        Vec3 u = std::get<0>(frames[v]), w = std::get<1>(frames[v]), z = std::get<2>(frames[v]);
        checkVec(z, m.vertex(v)->normal(), "the frame of a vertex stands on its normal");
        sym_check_eq(dot3(u, z), 0.0, "the first axis of the frame is tangent");
        sym_check_eq(dot3(w, z), 0.0, "the second axis of the frame is tangent");
        sym_check_eq(dot3(u, w), 0.0, "the axes of the frame are orthogonal");
        sym_check_eq(dot3(z, z), 1.0, "the normal of the frame is a unit vector");
        sym_check_eq(dot3(w, w), 1.0, "the second axis of the frame is a unit vector");
        // the cross product of orthogonal unit vectors is a unit vector
        Vec3 x = cross3(w, z);
        double side = sym_concrete(dot3(u, x)) < 0.0 ? -1.0 : 1.0;
        for (int d = 0; d < 3; d++) sym_check_eq(u[d], x[d] * side, "the first axis of the frame is the unit vector orthogonal to the other two");
        sym_check_eq(tensors[v](0, 1), tensors[v](1, 0), "the curvature tensor is symmetric");
    }
    sym_reach("frame");
}
#endif
