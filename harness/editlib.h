// Snapshots of a mesh in terms of vertex identities, and the expected result of each edit.
#pragma once
#include "meshlib.h"

using Edge2 = std::pair<int, int>;
struct Ids {
    std::map<const Vertex *, int> id;
    int of(const Vertex *v) {
        auto it = id.find(v);
        if (it != id.end()) return it->second;
        int k = (int)id.size();
        return id[v] = k;
    }
};
struct State {
    Structure s;
    std::vector<Tri3> tris;
    std::vector<std::vector<int>> loops;
    std::set<Edge2> edges, boundary;      // boundary: marked edges
    std::map<int, std::array<double, 3>> pos;
    std::map<int, bool> locked;
    std::map<int, std::set<int>> nbr;
    std::vector<int> order;               // vertices in stored order
    bool has(Tri3 t) const { return std::binary_search(tris.begin(), tris.end(), rotated(t)); }
};
inline State grab(const Mesh &m, Ids &ids, const char *when) {
    State st;
    st.s = inspect(m, when);
    if (!st.s.ok) return st;
    std::vector<int> &o = st.order;
    for (size_t i = 0; i < m.numVertices(); i++) {
        Vertex *v = m.vertex((int)i);
        int k = ids.of(v);
        o.push_back(k);
        const Vec3 p = v->pos();
        st.pos[k] = { p[0], p[1], p[2] };
        st.locked[k] = v->isLocked();
    }
    for (auto &t : st.s.tris) st.tris.push_back(rotated({ o[t[0]], o[t[1]], o[t[2]] }));
    std::sort(st.tris.begin(), st.tris.end());
    for (auto &l : st.s.loops) {
        std::vector<int> r;
        for (int k : l) r.push_back(o[k]);
        std::rotate(r.begin(), std::min_element(r.begin(), r.end()), r.end());
        st.loops.push_back(r);
    }
    std::sort(st.loops.begin(), st.loops.end());
    for (size_t i = 0; i < m.numHalfedges(); i++) {
        Halfedge *h = m.halfedge((int)i);
        Edge2 e(o[h->src()->index()], o[h->dst()->index()]);
        st.edges.insert(e);
        st.nbr[e.first].insert(e.second);
        if (h->isBoundary()) st.boundary.insert(e);
    }
    return st;
}
inline std::vector<std::vector<int>> replaced(std::vector<std::vector<int>> ls, int a, int b) {
    for (auto &l : ls) {
        for (int &k : l) if (k == a) k = b;
        std::rotate(l.begin(), std::min_element(l.begin(), l.end()), l.end());
    }
    std::sort(ls.begin(), ls.end());
    return ls;
}
inline void samePositions(const State &a, const State &b, const char *msg) {
    for (auto &p : b.pos)
        if (a.pos.count(p.first))
            for (int d = 0; d < 3; d++) sym_check_eq(p.second[d], a.pos.at(p.first)[d], msg);
}
inline bool locksKept(const State &a, const State &b) {
    for (auto &p : b.locked) if (a.locked.count(p.first) ? a.locked.at(p.first) != p.second : p.second) return false;
    return true;
}
inline void unchanged(const State &a, const State &b, const char *msg) {
    sym_check(a.order == b.order && a.tris == b.tris && a.loops == b.loops && a.boundary == b.boundary && a.s.F == b.s.F && a.s.E == b.s.E && a.locked == b.locked, msg);
    samePositions(a, b, msg);
}
// corner opposite to the directed edge, or -1
inline int apex(const State &s, int a, int b) {
    for (auto &t : s.tris)
        for (int k = 0; k < 3; k++)
            if (t[k] == a && t[(k + 1) % 3] == b) return t[(k + 2) % 3];
    return -1;
}
inline std::vector<Tri3> swapTris(std::vector<Tri3> ts, std::vector<Tri3> gone, std::vector<Tri3> come) {
    for (auto &g : gone) {
        auto it = std::find(ts.begin(), ts.end(), rotated(g));
        if (it != ts.end()) ts.erase(it);
    }
    for (auto &c : come) ts.push_back(rotated(c));
    std::sort(ts.begin(), ts.end());
    return ts;
}
inline bool onBoundary(const State &s, int v) {
    for (auto &l : s.loops) if (std::count(l.begin(), l.end(), v)) return true;
    return false;
}
// ------------------------------------------------------------------ the edits, each against its specification
inline bool editSplit(Mesh &m, Ids &ids, const State &a, Halfedge *he, State &b) {
    int u = ids.of(he->src()), v = ids.of(he->dst());
    int c = apex(a, u, v), d = apex(a, v, u);
    bool interior = c >= 0 && d >= 0;
    bool ok = m.splitHE(he);
    b = grab(m, ids, "after a split");
    if (!b.s.ok) return ok;
    if (!ok) {
        unchanged(a, b, "a refused split changes nothing");
        sym_check(!interior, "an edge between two triangles can be split");
        sym_reach("split refused");
        return ok;
    }
    sym_check(interior, "boundary edges are not split");
    if (!interior) return ok;
    int n = b.order.back();
    for (int k : b.order) if (!a.pos.count(k)) n = k;
    sym_check(b.s.V == a.s.V + 1 && b.s.E == a.s.E + 3 && b.s.F == a.s.F + 2 && !a.pos.count(n), "a split adds one vertex, three edges and two triangles");
    sym_check(b.tris == swapTris(a.tris, { { u, v, c }, { v, u, d } }, { { u, n, c }, { n, v, c }, { v, n, d }, { n, u, d } }), "a split replaces the two triangles by four with the same orientation");
    for (int k = 0; k < 3; k++) sym_check_eq(2 * b.pos[n][k], a.pos.at(u)[k] + a.pos.at(v)[k], "the new vertex is the midpoint");
    samePositions(a, b, "a split keeps all positions");
    sym_check(b.loops == a.loops && b.boundary == a.boundary && locksKept(a, b), "a split keeps boundary marks and locks");
    sym_reach("split");
    return ok;
}
inline bool editFlip(Mesh &m, Ids &ids, const State &a, Halfedge *he, State &b) {
    int u = ids.of(he->src()), v = ids.of(he->dst());
    int c = apex(a, u, v), d = apex(a, v, u);
    bool hole = c < 0 || d < 0;
    bool few = a.nbr.at(u).size() <= 4 || a.nbr.at(v).size() <= 4;
    bool dup = !hole && a.edges.count({ c, d });
    bool ok = m.flipHE(he);
    b = grab(m, ids, "after a flip");
    if (!b.s.ok) return ok;
    if (!ok) {
        unchanged(a, b, "a refused flip changes nothing");
        sym_check(hole || few || dup, "an admissible flip is carried out");
        sym_reach(hole ? "flip at a hole refused" : few ? "flip at a small vertex refused" : "flip onto an edge refused");
        return ok;
    }
    sym_check(!hole, "a flip touching a hole is refused");
    sym_check(!few, "a flip leaving a vertex with fewer than four edges is refused");
    sym_check(!dup, "a flip duplicating an edge is refused");
    if (hole) return ok;
    sym_check(b.order == a.order && b.s.E == a.s.E && b.s.F == a.s.F, "a flip keeps the element counts");
    sym_check(b.tris == swapTris(a.tris, { { u, v, c }, { v, u, d } }, { { d, v, c }, { u, d, c } }), "a flip replaces the diagonal and nothing else");
    samePositions(a, b, "a flip keeps all positions");
    sym_check(b.loops == a.loops && b.boundary == a.boundary && locksKept(a, b), "a flip keeps boundary marks and locks");
    sym_reach("flip");
    return ok;
}
// vertices around v in the order of its triangles (a hole closes the ring like a triangle would)
inline std::vector<int> ringOf(const State &s, int v) {
    std::map<int, int> nx;
    for (auto &t : s.tris)
        for (int k = 0; k < 3; k++) if (t[k] == v) nx[t[(k + 1) % 3]] = t[(k + 2) % 3];
    for (auto &l : s.loops)
        for (size_t k = 0; k < l.size(); k++)
            if (l[k] == v) nx[l[(k + 1) % l.size()]] = l[(k + l.size() - 1) % l.size()];
    std::vector<int> r;
    int a = nx.begin()->first;
    do { r.push_back(a); a = nx[a]; } while (a != nx.begin()->first && r.size() <= nx.size());
    return r;
}
inline bool editCollapse(Mesh &m, Ids &ids, const State &a, Halfedge *he, State &b) {
    int u = ids.of(he->src()), v = ids.of(he->dst());
    const Vertex *pu = he->src(), *pv = he->dst();
    int c = apex(a, u, v), d = apex(a, v, u);
    auto edgeFree = [&](int x, int y) { return !a.boundary.count({ x, y }); };
    bool inner = c >= 0 && d >= 0 && edgeFree(u, v) && edgeFree(v, c) && edgeFree(c, u) && edgeFree(u, d) && edgeFree(d, v);
    bool pinch = onBoundary(a, u) && onBoundary(a, v);
    int common = 0;
    for (int k : a.nbr.at(u)) common += (int)a.nbr.at(v).count(k);
    bool large = inner && a.nbr.at(u).size() > 3 && a.nbr.at(v).size() > 3 && a.nbr.at(c).size() > 4 && a.nbr.at(d).size() > 4;
    bool ok = m.collapseHE(he);
    // which end is left?
    bool hasU = false, hasV = false;
    for (size_t i = 0; i < m.numVertices(); i++) { hasU = hasU || m.vertex((int)i) == pu; hasV = hasV || m.vertex((int)i) == pv; }
    b = grab(m, ids, "after a collapse");
    if (!b.s.ok) return ok;
    if (!ok) {
        unchanged(a, b, "a refused collapse changes nothing");
        sym_reach("collapse refused");
    } else {
        sym_check(inner, "collapses at boundary faces are refused");
        sym_check(!pinch, "collapses between two boundary vertices are refused");
        sym_check(common == 2, "collapses that would pinch the surface are refused");
        sym_check(hasU != hasV, "exactly one end of the edge survives");
        if (!inner || hasU == hasV) return ok;
        int stay = hasU ? u : v, gone = hasU ? v : u;
        std::vector<Tri3> want = swapTris(a.tris, { { u, v, c }, { v, u, d } }, {});
        for (auto &t : want) { for (int &k : t) if (k == gone) k = stay; t = rotated(t); }
        std::sort(want.begin(), want.end());
        sym_check(b.s.V == a.s.V - 1 && b.s.E == a.s.E - 3 && b.s.F == a.s.F - 2, "a collapse removes one vertex, three edges and two triangles");
        sym_check(b.tris == want, "a collapse re-attaches the other triangles and keeps the rest");
        sym_check(b.loops == replaced(a.loops, gone, stay), "a collapse keeps the boundary loops");
        samePositions(a, b, "a collapse moves no vertex");
        sym_check(locksKept(a, b), "a collapse keeps locks");
        sym_reach("collapse");
    }
    // folding: the triangles re-attached to the survivor against the vector area of the removed ring
    int d0 = (int)a.nbr.at(u).size(), d1 = (int)a.nbr.at(v).size();
    for (int pass = 0; pass < 2; pass++) {
        int stay = pass ? v : u, gone = pass ? u : v;
        if (ok ? stay != (hasU ? u : v) : (d0 > d1 ? stay != v : d0 < d1 ? stay != u : false)) continue;
        std::vector<int> ring = ringOf(a, gone);
        size_t n = ring.size();
        auto P = [&](int k) { auto &p = a.pos.at(k); return Vec3(p[0], p[1], p[2]); };
        Vec3 N(0.0);
        for (size_t i = 0; i < n; i++) N = add3(N, cross3(sub3(P(ring[i]), P(gone)), sub3(P(ring[(i + 1) % n]), P(gone))));
        bool fold = false;
        for (size_t i = 0; i < n; i++) {
            if (ring[i] == stay || ring[(i + 1) % n] == stay) continue;
            double s = dot3(N, cross3(sub3(P(ring[i]), P(stay)), sub3(P(ring[(i + 1) % n]), P(stay))));
            if (ok) sym_check_le(0.0, s, "collapses that fold a triangle over are refused");
            else if (s < 1e-6) { fold = true; break; }   // close calls are left open: the library works with a rounded normal
        }
        if (!ok && d0 != d1 && large && !pinch && common == 2 && !fold) {
            double nn = dot3(N, N);
            if (nn > 0.0) sym_fail("an admissible collapse is carried out");
        }
        if (fold) sym_reach("fold refused");
    }
    return ok;
}
inline Shape complete7() {   // torus on seven vertices, every two of them adjacent
    Shape s;
    for (int i = 0; i < 7; i++) s.pos.push_back({ (double)(i * i % 7), (double)(i * 3 % 7), (double)(i * i * i % 5) });
    for (int i = 0; i < 7; i++) {
        s.tris.push_back({ i, (i + 1) % 7, (i + 3) % 7 });
        s.tris.push_back({ i, (i + 3) % 7, (i + 2) % 7 });
    }
    return s;
}
inline Shape baseShape(int k) {
    switch (k) {
        case 0: return tetra();
        case 1: return bipyramid(4);
        case 2: return icosa();
        case 3: return bipyramid(6);
        case 4: return torus(3, 3);
        case 5: return torus(4, 4);
        case 6: return grid(4, 4);
        case 7: return without(torus(5, 5), { 0, 4 });
        case 8: return wheel(5);
        case 9: return joined(icosa(), tetra(), 8);
        case 10: return without(icosa(), { 0, 12 });
        case 11: return without(wheel(3), { 1, 2 });
        case 12: return without(icosa(), { 0, 1, 2, 3, 4 });
        case 13: return complete7();
        default: return grid(5, 5);
    }
}
static const int NSHAPE = 15;
