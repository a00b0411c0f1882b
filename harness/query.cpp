// C14: traversal of neighbourhoods, and the boundary, hole and lock queries.
#include "editlib.h"

template <typename It, typename F>
static auto walk(It it, It end, int style, F f) -> std::vector<decltype(f(it))> {
    std::vector<decltype(f(it))> r;
    int n = 0;
    while (it != end) {
        r.push_back(f(it));
        if (++n > 200) { sym_fail("a traversal does not end"); break; }
        if (style == 1) {
            auto old = it++;
            sym_check(f(old) == r.back(), "stepping a traversal yields the element it was at");
        } else ++it;
    }
    return r;
}
static void vertexQueries(Mesh &m, Ids &ids, const State &s, Vertex *v, int style) {
    const Vertex *cv = v;
    int me = ids.of(v);
    auto he = walk(v->he_begin(), v->he_end(), style, [](auto &it) { return (const Halfedge *)it.ptr(); });
    auto vs = walk(v->v_begin(), v->v_end(), style, [](auto &it) { return (const Vertex *)it.ptr(); });
    auto fs = walk(v->f_begin(), v->f_end(), style, [](auto &it) { return (const Face *)it.ptr(); });
    sym_check(he == walk(cv->he_begin(), cv->he_end(), style, [](auto &it) { return (const Halfedge *)it.ptr(); }), "constant and mutable traversals agree");
    sym_check(vs == walk(cv->v_begin(), cv->v_end(), style, [](auto &it) { return (const Vertex *)it.ptr(); }), "constant and mutable traversals agree");
    sym_check(fs == walk(cv->f_begin(), cv->f_end(), style, [](auto &it) { return (const Face *)it.ptr(); }), "constant and mutable traversals agree");
    sym_check(he == walk(v->he_begin(), v->he_end(), style, [](auto &it) { return (const Halfedge *)&*it; }), "reference and pointer access agree");
    sym_check(vs == walk(v->v_begin(), v->v_end(), style, [](auto &it) { return (const Vertex *)&*it; }), "reference and pointer access agree");
    sym_check(fs == walk(v->f_begin(), v->f_end(), style, [](auto &it) { return (const Face *)&*it; }), "reference and pointer access agree");
    std::vector<int> ring = ringOf(s, me);      // counter-clockwise
    std::reverse(ring.begin(), ring.end());
    const size_t n = ring.size();
    sym_check(he.size() == n && vs.size() == n && fs.size() == n && v->degree() == (int)n, "each neighbour is visited once and counted");
    if (he.size() != n || vs.size() != n || fs.size() != n) return;
    auto at = std::find(ring.begin(), ring.end(), ids.of(vs[0]));
    sym_check(at != ring.end(), "only neighbours are visited");
    if (at == ring.end()) return;
    std::rotate(ring.begin(), at, ring.end());
    for (size_t i = 0; i < n; i++) {
        sym_check(ids.of(vs[i]) == ring[i], "vertices are visited clockwise, each once");
        sym_check(he[i]->src() == v && he[i]->dst() == vs[i], "edges are visited in the order of the vertices");
        sym_check(fs[i] == he[i]->face(), "faces are visited in the order of the edges");
    }
    std::set<const Face *> distinct(fs.begin(), fs.end());
    sym_check(distinct.size() == n, "each face around a vertex is visited once");
    sym_check(v->isBoundary() == onBoundary(s, me), "a vertex is boundary exactly when it lies on a boundary loop");
}
static void faceQueries(Mesh &m, Ids &ids, const State &s, Face *f, int style) {
    const Face *cf = f;
    auto he = walk(f->he_begin(), f->he_end(), style, [](auto &it) { return (const Halfedge *)it.ptr(); });
    auto vs = walk(f->v_begin(), f->v_end(), style, [](auto &it) { return (const Vertex *)it.ptr(); });
    auto fs = walk(f->f_begin(), f->f_end(), style, [](auto &it) { return (const Face *)it.ptr(); });
    sym_check(he == walk(cf->he_begin(), cf->he_end(), style, [](auto &it) { return (const Halfedge *)it.ptr(); }), "constant and mutable traversals agree");
    sym_check(vs == walk(cf->v_begin(), cf->v_end(), style, [](auto &it) { return (const Vertex *)it.ptr(); }), "constant and mutable traversals agree");
    sym_check(fs == walk(cf->f_begin(), cf->f_end(), style, [](auto &it) { return (const Face *)it.ptr(); }), "constant and mutable traversals agree");
    sym_check(he == walk(f->he_begin(), f->he_end(), style, [](auto &it) { return (const Halfedge *)&*it; }), "reference and pointer access agree");
    sym_check(vs == walk(f->v_begin(), f->v_end(), style, [](auto &it) { return (const Vertex *)&*it; }), "reference and pointer access agree");
    sym_check(fs == walk(f->f_begin(), f->f_end(), style, [](auto &it) { return (const Face *)&*it; }), "reference and pointer access agree");
    std::vector<int> vi;
    bool anyLock = false, anyB = false;
    for (auto *v : vs) { vi.push_back(ids.of(v)); anyLock = anyLock || s.locked.at(ids.of(v)); }
    const size_t n = vi.size();
    sym_check(he.size() == n && fs.size() == n && f->numCorners() == (int)n, "each corner is visited once and counted");
    if (he.size() != n || fs.size() != n) return;
    for (size_t i = 0; i < n; i++) {
        sym_check(he[i]->src() == vs[i] && he[i]->dst() == vs[(i + 1) % n], "edges of a face are visited along its orientation");
        sym_check(fs[i] == he[i]->rev()->face(), "neighbouring faces are visited in the order of the edges");
        // on a boundary loop: one of the two sides is not a triangle
        bool be = apex(s, vi[i], vi[(i + 1) % n]) < 0 || apex(s, vi[(i + 1) % n], vi[i]) < 0;
        sym_check(he[i]->isBoundary() == be, "an edge is boundary exactly when it lies on a boundary loop");
        anyB = anyB || be;
    }
    std::vector<int> c = vi;
    std::rotate(c.begin(), std::min_element(c.begin(), c.end()), c.end());
    bool tri = n == 3 && s.has({ vi[0], vi[1], vi[2] });
    bool loop = std::count(s.loops.begin(), s.loops.end(), c) > 0;
    sym_check(tri != loop, "a face is a triangle or fills a loop");
    sym_check(f->isHole() == loop, "a face is a hole exactly when it fills a boundary loop");
    sym_check(f->isBoundary() == anyB, "a face is boundary exactly when one of its edges is");
    sym_check(f->isLocked() == anyLock, "a face is locked exactly when one of its vertices is");
    for (auto *h : he) sym_check(h->isLocked() == (s.locked.at(ids.of(h->src())) && s.locked.at(ids.of(h->dst()))), "an edge is locked exactly when both ends are");
}
extern "C" void sym_harness() {
    int k = sym_int("shape", 0, NSHAPE - 1);
    Shape sh = baseShape(k);
    Input in = inputOf(sh);
    Mesh m(in.vs, in.idx);
    const int n = (int)m.numVertices();
    for (int i = 0; i < n; i++) m.vertex(i)->setPos(symVec(("p" + std::to_string(i)).c_str(), -16, 16));
    Ids ids;
    int edited = sym_int("edited", 0, sym_tier() ? 2 : 1);
    State a = grab(m, ids, "built"), b = a;
    if (!a.s.ok) return;
    // the triangles are the listed ones, so what follows is relative to the input and not to the answers
    sym_check(a.tris == trisOf(in), "the mesh has the listed triangles");
    if (edited) {
        int e = sym_int("edge", 0, std::min((int)m.numHalfedges(), sym_tier() ? 40 : 8) - 1);
        if (edited == 1) editSplit(m, ids, a, m.halfedge(e), b); else editFlip(m, ids, a, m.halfedge(e), b);
        if (!b.s.ok) return;
    }
    int pat = sym_int("pattern", 0, 3), i0 = sym_int("locked", 0, std::min(n - 1, 5));
    for (int i = 0; i < n; i++) {
        bool l = pat == 0 ? false : pat == 1 ? i == i0 : pat == 2 ? i != i0 : (i + i0) % 2 == 0;
        if (l) m.vertex(i)->lock();
        if (pat == 3 && i == i0) m.vertex(i)->unlock();
    }
    State s = grab(m, ids, "locked");
    if (!s.s.ok) return;
    int style = sym_int("style", 0, 1);
    for (size_t i = 0; i < m.numVertices(); i++) vertexQueries(m, ids, s, m.vertex((int)i), style);
    for (size_t i = 0; i < m.numFaces(); i++) faceQueries(m, ids, s, m.face((int)i), style);
    sym_reach(s.loops.empty() ? "closed" : "open");
    if (edited) sym_reach("edited");
    sym_outi("F", s.s.F);
}
