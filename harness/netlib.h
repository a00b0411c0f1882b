// Positions and neighbourhoods for plain formulas over a mesh.
#pragma once
#include "editlib.h"

using P3 = std::array<double, 3>;
struct Net {   // what the formulas need: positions, neighbours, free vertices
    std::vector<P3> p;
    std::vector<std::vector<int>> nbr;
    std::vector<bool> fixed;
    std::vector<Tri3> tris;
};
inline Net netOf(const State &s) {
    Net n;
    n.nbr.resize(s.order.size());
    for (size_t i = 0; i < s.order.size(); i++) {
        n.p.push_back(s.pos.at(s.order[i]));
        n.fixed.push_back(s.locked.at(s.order[i]) || onBoundary(s, s.order[i]));
    }
    std::set<std::pair<int, int>> e;
    for (auto &t : s.tris)
        for (int k = 0; k < 3; k++) {
            e.insert({ t[k], t[(k + 1) % 3] });
            e.insert({ t[(k + 1) % 3], t[k] });
        }
    for (auto &x : e) n.nbr[x.first].push_back(x.second);
    n.tris = s.tris;
    return n;
}
inline Vec3 at(const Net &n, int i) { return Vec3(n.p[i][0], n.p[i][1], n.p[i][2]); }
inline double cotAt(const Net &n, int a, int b, int c) {   // cotangent of the angle at c between a and b
    Vec3 u = sub3(at(n, a), at(n, c)), v = sub3(at(n, b), at(n, c));
    Vec3 x = cross3(u, v);
    return dot3(u, v) / std::sqrt(dot3(x, x));
}
inline double weight(const Net &n, int i, int j) {   // half the sum of the two cotangents opposite to the edge
    double w = 0;
    for (auto &t : n.tris)
        for (int k = 0; k < 3; k++) {
            int a = t[k], b = t[(k + 1) % 3], c = t[(k + 2) % 3];
            if ((a == i && b == j) || (a == j && b == i)) w = w + cotAt(n, a, b, c);
        }
    return 0.5 * w;
}
inline void pass(Net &n, double f, bool cot) {
    std::vector<P3> q = n.p;
    for (size_t i = 0; i < n.p.size(); i++) {
        if (n.fixed[i]) continue;
        double s = 0;
        P3 c = { 0, 0, 0 };
        for (int j : n.nbr[i]) {
            double w = cot ? weight(n, (int)i, j) : 1.0;
            s = s + w;
            for (int d = 0; d < 3; d++) c[d] = c[d] + w * n.p[j][d];
        }
        for (int d = 0; d < 3; d++) q[i][d] = n.p[i][d] + f * (c[d] / s - n.p[i][d]);
    }
    n.p = q;
}
inline void place(Mesh &m, double lo = -8, double hi = 8) {
    for (size_t i = 0; i < m.numVertices(); i++) m.vertex((int)i)->setPos(symVec(("p" + std::to_string(i)).c_str(), lo, hi));
}
inline void lockSome(Mesh &m) {
    int pat = sym_int("locks", 0, 3), n = (int)m.numVertices();
    for (int i = 0; i < n; i++)
        if (pat == 1 ? i == 0 : pat == 2 ? i == n - 1 : pat == 3 ? i % 2 == 0 : false) m.vertex(i)->lock();
}
inline void nonFlat(const Net &n) {   // triangles with an area
    for (auto &t : n.tris) {
        Vec3 x = cross3(sub3(at(n, t[1]), at(n, t[0])), sub3(at(n, t[2]), at(n, t[0])));
        sym_assume_lt(1e-3, std::sqrt(dot3(x, x)));
        sym_assume_lt(1e-6, std::sqrt(dot3(x, x)));   // the same, as the code asks it
        sym_assume_ne(std::sqrt(dot3(x, x)), 0.0);
    }
    sym_note("triangles are not degenerate (twice the area above 1e-3)");
}
inline void compare(const Mesh &m, const State &a, const State &b, const Net &n, const char *msg, const char *fix) {
    if (!b.s.ok) return;
    sym_check(a.order == b.order && a.tris == b.tris && a.loops == b.loops && a.boundary == b.boundary && a.s.F == b.s.F && a.locked == b.locked, "connectivity and locks are unchanged");
    for (size_t i = 0; i < n.p.size(); i++) {
        const Vec3 p = m.vertex((int)i)->pos();
        for (int d = 0; d < 3; d++) sym_check_eq(p[d], n.p[i][d], n.fixed[i] ? fix : msg);
    }
    for (int d = 0; d < 3; d++) sym_out("p", m.vertex(0)->pos()[d]);
}
