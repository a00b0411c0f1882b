// Meshes to start from, and the structural checker used after every operation.
#pragma once
#include "common.h"
#include "core/face.h"
#include "core/halfedge.h"
#include "core/mesh.h"
#include "core/triangle.h"
#include "core/vertex.h"
#include <algorithm>
#include <array>
#include <map>
#include <memory>
#include <set>
using namespace tinymesh;

using Tri3 = std::array<int, 3>;
inline Tri3 rotated(Tri3 t) {   // smallest first, orientation kept
    while (t[0] > t[1] || t[0] > t[2]) std::rotate(t.begin(), t.begin() + 1, t.end());
    return t;
}

// ------------------------------------------------------------------ structure
struct Structure {
    bool ok = false;
    int V = 0, E = 0, F = 0;                 // F counts every face, hole faces included
    std::vector<Tri3> tris;                  // non-hole faces, vertex indices, smallest first, sorted
    std::vector<std::vector<int>> loops;     // hole faces, vertex indices from the smallest, sorted
    int euler() const { return V - E + F; }
};
#define MUST(c, msg) do { if (!(c)) { sym_fail(msg); return s; } } while (0)
// Walks the whole mesh through the public accessors.  holes: whether hole faces may exist.
inline Structure inspect(const Mesh &m, const char *when) {
    Structure s;
    std::string w = std::string(" (") + when + ")";
    auto T = [&](const char *x) { static std::string keep; keep = x + w; return keep.c_str(); };
    const int V = (int)m.numVertices(), H = (int)m.numHalfedges(), F = (int)m.numFaces();
    std::set<const void *> vs, hs, fs;
    for (int i = 0; i < V; i++) { vs.insert(m.vertex(i)); MUST(m.vertex(i)->index() == i, T("vertex index differs from its position")); }
    for (int i = 0; i < H; i++) { hs.insert(m.halfedge(i)); MUST(m.halfedge(i)->index() == i, T("halfedge index differs from its position")); }
    for (int i = 0; i < F; i++) { fs.insert(m.face(i)); MUST(m.face(i)->index() == i, T("face index differs from its position")); }
    MUST((int)vs.size() == V && (int)hs.size() == H && (int)fs.size() == F, T("an element is listed twice"));
    std::map<std::pair<int, int>, int> directed;
    std::map<const Vertex *, int> out;
    for (int i = 0; i < H; i++) {
        const Halfedge *h = m.halfedge(i);
        MUST(hs.count(h->next()), T("next link leaves the mesh"));
        MUST(hs.count(h->rev()), T("opposite link leaves the mesh"));
        MUST(vs.count(h->src()), T("source vertex is not in the mesh"));
        MUST(fs.count(h->face()), T("face link leaves the mesh"));
    }
    for (int i = 0; i < H; i++) {
        const Halfedge *h = m.halfedge(i);
        MUST(h->rev() != h && h->rev()->rev() == h, T("opposites do not pair up"));
        MUST(h->src() != h->dst(), T("edge joins a vertex to itself"));
        MUST(h->rev()->src() == h->dst() && h->rev()->dst() == h->src(), T("opposite edges do not swap their end points"));
        MUST((++directed[{ h->src()->index(), h->dst()->index() }] == 1), T("two edges join the same vertices in the same direction"));
        out[h->src()]++;
        int n = 0;
        const Halfedge *k = h;
        do {
            MUST(k->face() == h->face(), T("the edges of a cycle belong to different faces"));
            MUST(++n <= H, T("next links do not form a cycle"));
            k = k->next();
        } while (k != h);
        MUST(h->prev()->next() == h, T("previous edge does not lead back"));
        MUST(h->isBoundary() == h->rev()->isBoundary(), T("the two sides of an edge disagree about the boundary"));
    }
    int covered = 0;
    for (int i = 0; i < F; i++) {
        Face *f = m.face(i);
        std::vector<int> vi;
        int n = 0;
        for (auto it = f->he_begin(); it != f->he_end(); ++it) {
            MUST(++n <= H, T("face traversal does not end"));
            MUST(it->face() == f, T("face traversal visits an edge of another face"));
            vi.push_back(it->src()->index());
        }
        covered += n;
        std::set<int> distinct(vi.begin(), vi.end());
        MUST((int)distinct.size() == n, T("face visits a vertex twice"));
        std::rotate(vi.begin(), std::min_element(vi.begin(), vi.end()), vi.end());
        if (f->isHole()) {
            s.loops.push_back(vi);
        } else {
            MUST(n == 3, T("face is not a triangle"));
            s.tris.push_back({ vi[0], vi[1], vi[2] });
        }
        for (auto it = f->he_begin(); it != f->he_end(); ++it)
            MUST(it->isBoundary() == (f->isHole() || it->rev()->face()->isHole()), T("boundary mark does not match the hole faces"));
    }
    MUST(covered == H, T("some edges belong to no face cycle"));
    for (int i = 0; i < V; i++) {
        Vertex *v = m.vertex(i);
        int n = 0;
        for (auto it = v->he_begin(); it != v->he_end(); ++it) {
            MUST(it->src() == v, T("walk around a vertex visits a foreign edge"));
            MUST(++n <= H, T("walk around a vertex does not end"));
        }
        MUST(n == out[v], T("walk around a vertex misses some of its edges"));
        MUST(n > 0, T("vertex without edges"));
        const Vec3 p = v->pos();
        for (int d = 0; d < 3; d++) if (!sym_is_symbolic(p[d])) MUST(std::isfinite(p[d]), T("position is not finite"));
    }
    std::sort(s.tris.begin(), s.tris.end());
    std::sort(s.loops.begin(), s.loops.end());
    s.V = V;
    s.E = H / 2;
    s.F = F;
    s.ok = true;
    return s;
}
#undef MUST
inline bool sameStructure(const Structure &a, const Structure &b) {
    return a.V == b.V && a.E == b.E && a.F == b.F && a.tris == b.tris && a.loops == b.loops;
}

// ------------------------------------------------------------------ shapes
struct Shape {
    std::vector<std::array<double, 3>> pos;
    std::vector<Tri3> tris;
};
inline Shape grid(int nx, int ny, double bump = 0.25) {   // disk with boundary
    Shape s;
    for (int y = 0; y < ny; y++)
        for (int x = 0; x < nx; x++) s.pos.push_back({ (double)x + 0.125 * (y % 2), (double)y, ((x * 3 + y * 5) % 4) * bump });
    auto id = [&](int x, int y) { return y * nx + x; };
    for (int y = 0; y + 1 < ny; y++)
        for (int x = 0; x + 1 < nx; x++) {
            s.tris.push_back({ id(x, y), id(x + 1, y), id(x + 1, y + 1) });
            s.tris.push_back({ id(x, y), id(x + 1, y + 1), id(x, y + 1) });
        }
    return s;
}
inline Shape torus(int n, int m) {
    Shape s;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) {
            double u = 2 * M_PI * i / n, v = 2 * M_PI * j / m;
            auto q = [](double t) { return std::round(t * 64) / 64; };
            s.pos.push_back({ q((4 + 1.5 * std::cos(v)) * std::cos(u)), q((4 + 1.5 * std::cos(v)) * std::sin(u)), q(1.5 * std::sin(v)) });
        }
    auto id = [&](int i, int j) { return (i % n) * m + (j % m); };
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) {
            s.tris.push_back({ id(i, j), id(i + 1, j), id(i + 1, j + 1) });
            s.tris.push_back({ id(i, j), id(i + 1, j + 1), id(i, j + 1) });
        }
    return s;
}
inline Shape bipyramid(int n) {   // 0 top, 1 bottom, ring after
    Shape s;
    s.pos.push_back({ 0.125, 0, 1 });
    s.pos.push_back({ 0, 0.125, -1.25 });
    for (int i = 0; i < n; i++) {
        auto q = [](double t) { return std::round(t * 64) / 64; };
        s.pos.push_back({ q(2 * std::cos(2 * M_PI * i / n)), q(2 * std::sin(2 * M_PI * i / n)), 0.0625 * (i % 3) });
    }
    for (int i = 0; i < n; i++) {
        int a = 2 + i, b = 2 + (i + 1) % n;
        s.tris.push_back({ 0, a, b });
        s.tris.push_back({ 1, b, a });
    }
    return s;
}
inline Shape tetra() {
    Shape s;
    s.pos = { { 0, 0, 0 }, { 2, 0, 0 }, { 0, 2, 0 }, { 0.25, 0.25, 2 } };
    s.tris = { { 0, 2, 1 }, { 0, 1, 3 }, { 1, 2, 3 }, { 2, 0, 3 } };
    return s;
}
inline Shape icosa() {
    Shape s;
    const double a = 1, b = 1.625;
    s.pos = { { -a, b, 0 }, { a, b, 0 }, { -a, -b, 0 }, { a, -b, 0 }, { 0, -a, b }, { 0, a, b }, { 0, -a, -b }, { 0, a, -b }, { b, 0, -a }, { b, 0, a }, { -b, 0, -a }, { -b, 0, a } };
    s.tris = { { 0, 11, 5 }, { 0, 5, 1 }, { 0, 1, 7 }, { 0, 7, 10 }, { 0, 10, 11 }, { 1, 5, 9 }, { 5, 11, 4 }, { 11, 10, 2 }, { 10, 7, 6 }, { 7, 1, 8 },
               { 3, 9, 4 }, { 3, 4, 2 }, { 3, 2, 6 }, { 3, 6, 8 }, { 3, 8, 9 }, { 4, 9, 5 }, { 2, 4, 11 }, { 6, 2, 10 }, { 8, 6, 7 }, { 9, 8, 1 } };
    return s;
}
inline Shape without(Shape s, std::vector<int> drop) {   // remove triangles (opens holes); unused vertices go too
    std::sort(drop.rbegin(), drop.rend());
    for (int d : drop) s.tris.erase(s.tris.begin() + d);
    std::map<int, int> re;
    Shape r;
    for (auto &t : s.tris)
        for (int k : t)
            if (!re.count(k)) { int id = (int)re.size(); re[k] = id; }
    r.pos.resize(re.size());
    for (auto &p : re) r.pos[p.second] = s.pos[p.first];
    for (auto &t : s.tris) r.tris.push_back({ re[t[0]], re[t[1]], re[t[2]] });
    return r;
}
inline Shape joined(const Shape &a, const Shape &b, double dx) {   // two components
    Shape r = a;
    int o = (int)a.pos.size();
    for (auto p : b.pos) { p[0] += dx; r.pos.push_back(p); }
    for (auto t : b.tris) r.tris.push_back({ t[0] + o, t[1] + o, t[2] + o });
    return r;
}
inline Shape wheel(int n) {   // open fan around vertex 0
    Shape s;
    s.pos.push_back({ 0, 0, 0.5 });
    for (int i = 0; i < n; i++) {
        auto q = [](double t) { return std::round(t * 64) / 64; };
        s.pos.push_back({ q(2 * std::cos(2 * M_PI * i / n)), q(2 * std::sin(2 * M_PI * i / n)), 0.125 * (i % 2) });
    }
    for (int i = 0; i < n; i++) s.tris.push_back({ 0, 1 + i, 1 + (i + 1) % n });
    return s;
}
// Positions of the mesh's vertices are in order of first use, which is the order of the shape after renumbering.
inline Shape renumbered(const Shape &s) { return without(s, {}); }
struct Input {
    std::vector<Vec3> vs;
    std::vector<uint32_t> idx;
};
inline Input inputOf(const Shape &s0) {
    Input in;
    Shape s;
    // number vertices in order of first use, as the library does
    std::map<int, int> re;
    for (auto &t : s0.tris) for (int k : t) if (!re.count(k)) { int id = (int)re.size(); re[k] = id; }
    s.pos.resize(re.size());
    for (auto &p : re) s.pos[p.second] = s0.pos[p.first];
    for (auto &p : s.pos) in.vs.emplace_back(p[0], p[1], p[2]);
    for (auto &t : s0.tris) for (int k : t) in.idx.push_back((uint32_t)re[k]);
    return in;
}
inline std::vector<Tri3> trisOf(const Input &in) {
    std::vector<Tri3> r;
    for (size_t i = 0; i + 2 < in.idx.size(); i += 3) r.push_back(rotated({ (int)in.idx[i], (int)in.idx[i + 1], (int)in.idx[i + 2] }));
    std::sort(r.begin(), r.end());
    return r;
}
