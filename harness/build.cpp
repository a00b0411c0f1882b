// Construction from triangle lists: C07 (manifold lists), C08 (any list), C09 (merging, rebuilding, cloning).
// Corner positions are symbolic; which of them coincide is decided by the solver, path by path.
#include "meshlib.h"

static const double B = 8;
struct Reference {
    std::vector<int> id;              // vertex number of each corner, by first occurrence of its position
    int nv = 0;
    std::vector<Tri3> nondeg;         // as listed
    bool clean = true;                // no directed edge used twice
    bool covered = true;              // every vertex is a corner of some non-degenerate triangle
    bool fans = true;                 // triangles around each vertex form one fan
    int loops = 0;
};
static Reference analyse(const std::vector<int> &id, int nv) {
    Reference r;
    r.id = id;
    r.nv = nv;
    std::map<std::pair<int, int>, int> dir;
    for (size_t i = 0; i + 2 < id.size(); i += 3) {
        Tri3 t = { id[i], id[i + 1], id[i + 2] };
        if (t[0] == t[1] || t[1] == t[2] || t[2] == t[0]) continue;
        r.nondeg.push_back(t);
        for (int k = 0; k < 3; k++) if (++dir[{ t[k], t[(k + 1) % 3] }] > 1) r.clean = false;
    }
    if (!r.clean) return r;
    for (int v = 0; v < nv; v++) {
        // successor map: triangle (v, a, b) leads from a to b
        std::map<int, int> succ;
        std::set<int> heads;
        for (auto &t : r.nondeg)
            for (int k = 0; k < 3; k++)
                if (t[k] == v) { succ[t[(k + 1) % 3]] = t[(k + 2) % 3]; heads.insert(t[(k + 2) % 3]); }
        if (succ.empty()) { r.covered = false; continue; }
        int start = succ.begin()->first;
        for (auto &p : succ) if (!heads.count(p.first)) start = p.first;
        size_t n = 0;
        for (int a = start; succ.count(a);) { a = succ[a]; n++; if (a == start) break; if (n > succ.size()) break; }
        if (n != succ.size()) r.fans = false;
    }
    // boundary loops
    if (r.fans) {
        std::map<int, int> nx;
        for (auto &e : dir) if (!dir.count({ e.first.second, e.first.first })) nx[e.first.second] = e.first.first;
        std::set<int> seen;
        for (auto &p : nx) {
            if (seen.count(p.first)) continue;
            r.loops++;
            for (int a = p.first; !seen.count(a); a = nx[a]) seen.insert(a);
        }
    }
    return r;
}
static void verdict(const Reference &ref, const std::vector<Vec3> &cornerPos) {
    std::vector<uint32_t> idx;
    for (size_t i = 0; i < cornerPos.size(); i++) idx.push_back((uint32_t)i);
    std::unique_ptr<Mesh> m;
    int rc = sym_try([&] { m.reset(new Mesh(cornerPos, idx)); });
    bool manifold = ref.clean && ref.covered && ref.fans;
    sym_check(rc == 0 || rc == 2, "construction either succeeds or reports an error");
    if (rc != 0) {
        sym_check(!manifold, "a manifold triangle list is accepted");
        sym_reach("rejected");
        sym_outi("rc", rc);
        return;
    }
    Structure s = inspect(*m, "after construction");
    sym_check(s.V == ref.nv, "one vertex per distinct position");
    if (s.V != ref.nv) return;
    // corners by position
    for (size_t i = 0; i < ref.id.size(); i++)
        for (int d = 0; d < 3; d++) sym_check_eq(m->vertex(ref.id[i])->pos()[d], cornerPos[i][d], "vertices keep the input positions, in order of first use");
    // kept triangles: listed, pairwise edge-disjoint, and maximal
    std::vector<Tri3> listed;
    for (auto &t : ref.nondeg) listed.push_back(rotated(t));
    std::set<std::pair<int, int>> used;
    for (auto &t : s.tris) {
        sym_check(std::count(listed.begin(), listed.end(), t) > 0, "every face is a listed triangle");
        for (int k = 0; k < 3; k++) sym_check(used.insert({ t[k], t[(k + 1) % 3] }).second, "no directed edge is used twice");
    }
    for (auto &t : listed) {
        if (std::count(s.tris.begin(), s.tris.end(), t)) continue;
        bool reuse = false;
        for (int k = 0; k < 3; k++) reuse = reuse || used.count({ t[k], t[(k + 1) % 3] });
        sym_check(reuse, "only degenerate triangles and those reusing a directed edge are left out");
    }
    if (manifold) {
        std::sort(listed.begin(), listed.end());
        sym_check(s.tris == listed, "every triangle of a manifold list is present exactly once");
        sym_check((int)s.loops.size() == ref.loops, "one hole face per boundary loop");
        sym_reach(ref.loops ? "open" : "closed");
    } else sym_reach("cleaned");
    // reported data reproduce the triangles
    auto vs = m->getVertices();
    auto vi = m->getVertexIndices();
    sym_check((int)vs.size() == s.V && vi.size() == 3 * s.tris.size(), "reported vertices and indices cover the mesh");
    std::vector<Tri3> rep;
    for (size_t i = 0; i + 2 < vi.size(); i += 3) rep.push_back(rotated({ (int)vi[i], (int)vi[i + 1], (int)vi[i + 2] }));
    std::sort(rep.begin(), rep.end());
    sym_check(rep == s.tris, "reported indices are the triangles");
    for (int i = 0; i < s.V; i++)
        for (int d = 0; d < 3; d++) sym_check_eq(vs[i][d], m->vertex(i)->pos()[d], "reported vertices are the positions");
    sym_outi("faces", s.F);
}
// n triangles whose corners are free points of a line (any coordinate axis)
static void freeSoup(int n) {
    const bool narrow = n > 2 && !sym_tier();   // quick: the first triangle has three different corners in a fixed order
    int axis = narrow ? 1 : sym_int("axis", 0, 2);
    std::vector<Vec3> c;
    std::vector<double> x;
    for (int i = 0; i < 3 * n; i++) {
        double t = sym_real(("c" + std::to_string(i)).c_str(), -B, B);
        x.push_back(t);
        Vec3 p(0.5, -1.0, 2.0);
        p[axis] = t;
        c.emplace_back(p);
    }
    if (narrow) { sym_assume_lt(x[0], x[1]); sym_assume_lt(x[1], x[2]); }
    std::vector<int> id;
    std::vector<double> rep;
    for (double t : x) {
        size_t k = 0;
        while (k < rep.size() && rep[k] != t) k++;
        if (k == rep.size()) rep.push_back(t);
        id.push_back((int)k);
    }
    verdict(analyse(id, (int)rep.size()), c);
}
// a known surface plus k triangles whose corners are free: each may coincide with any corner or stand alone
static void patched(int k) {
    int base = sym_int("base", 0, 6), where = sym_int("where", 0, 1);
    Shape s;
    switch (base) {
        case 0: s = without(tetra(), { 0 }); break;
        case 1: s = tetra(); break;
        case 2: s = wheel(4); break;
        case 3: s = without(wheel(5), { 4 }); break;
        case 4: s = without(bipyramid(3), { 0, 1 }); break;
        case 5: s = without(wheel(3), { 1, 2 }); break;
        default: s = joined(without(wheel(3), { 1, 2 }), without(wheel(3), { 1, 2 }), 16); break;
    }
    std::vector<int> num;
    for (auto &t : s.tris) for (int v : t) num.push_back(v);
    std::vector<double> key;   // x coordinate identifies a vertex
    auto keyOf = [&](int v) { return -7.0 + v; };
    std::vector<double> x;
    std::vector<double> extra;
    for (int i = 0; i < 3 * k; i++) extra.push_back(sym_real(("c" + std::to_string(i)).c_str(), -B, B));
    if (where == 0) for (double e : extra) x.push_back(e);
    for (int v : num) x.push_back(keyOf(v));
    if (where == 1) for (double e : extra) x.push_back(e);
    std::vector<Vec3> c;
    for (double t : x) c.emplace_back(1.0, t, 3.0);
    std::vector<int> id;
    std::vector<double> rep;
    for (double t : x) {
        size_t j = 0;
        while (j < rep.size() && rep[j] != t) j++;
        if (j == rep.size()) rep.push_back(t);
        id.push_back((int)j);
    }
    verdict(analyse(id, (int)rep.size()), c);
    sym_reach("patched");
}
// known manifold shapes with all positions symbolic and distinct, triangles in any rotation of the list
static void shapes() {
    Shape s;
    const int which = sym_int("shape", 0, 12);
    switch (which) {
        case 0: s = tetra(); break;
        case 1: s = bipyramid(4); break;
        case 2: s = icosa(); break;
        case 3: s = torus(3, 3); break;
        case 4: s = grid(3, 3); break;
        case 5: s = grid(4, 3); break;
        case 6: s = wheel(5); break;
        case 7: s = without(wheel(3), { 1, 2 }); break;
        case 8: s = without(icosa(), { 0, 12 }); break;
        case 9: s = joined(tetra(), wheel(3), 8); break;
        case 10: s = without(torus(4, 4), { 0, 1, 2 }); break;
        case 11: s = wheel(sym_tier() ? 130 : 40); break;   // a long boundary
        default: s = joined(without(wheel(3), { 1, 2 }), grid(3, 2), 8); break;
    }
    int n = (int)s.tris.size();
    int first = which == 11 ? 17 * sym_int("first", 0, 1) : sym_int("first", 0, n - 1), turn = sym_int("turn", 0, 2);
    std::rotate(s.tris.begin(), s.tris.begin() + first, s.tris.end());
    if (turn) for (auto &t : s.tris) std::rotate(t.begin(), t.begin() + turn, t.end());
    std::vector<Vec3> pos;
    for (size_t i = 0; i < s.pos.size(); i++) {
        Vec3 p = symVec(("p" + std::to_string(i)).c_str(), -B, B);
        pos.emplace_back(p);
        for (size_t j = 0; j < i; j++) sym_assume_ne(pos[j][i % 3], p[i % 3]);
        for (size_t j = 0; j < i; j++) sym_assume_ne(pos[j][0], p[0]);
    }
    std::vector<Vec3> c;
    std::vector<int> id;
    std::map<int, int> re;
    for (auto &t : s.tris)
        for (int v : t) {
            c.emplace_back(pos[v]);
            if (!re.count(v)) { int k = (int)re.size(); re[v] = k; }
            id.push_back(re[v]);
        }
    Reference ref = analyse(id, (int)re.size());
    sym_check(ref.clean && ref.covered && ref.fans, "harness: shape is manifold");
    verdict(ref, c);
    sym_reach("shapes");
}
// C09: corners that nearly coincide, rebuilding into a used object, clones and their independence
#include "editlib.h"
static void merging() {
    // exact equality decides: positions are arbitrary doubles, compared component by component
    sym_mode(SYM_FPA);
    Vec3 a = anyVec("a"), b = anyVec("b");
    for (int d = 0; d < 3; d++) { sym_assume(a[d] - a[d] == 0.0); sym_assume(b[d] - b[d] == 0.0); }
    Vec3 far1(1e300, 0, 1), far2(0, 1e300, 2);
    sym_assume(a[0] != 1e300 && a[1] != 1e300 && b[0] != 1e300 && b[1] != 1e300);
    std::vector<Vec3> vs;
    vs.emplace_back(a);
    vs.emplace_back(far1);
    vs.emplace_back(far2);
    vs.emplace_back(b);
    std::vector<uint32_t> idx = { 0, 1, 2, 3, 2, 1 };
    bool same = a[0] == b[0] && a[1] == b[1] && a[2] == b[2];
    Mesh m(vs, idx);
    sym_check((int)m.numVertices() == (same ? 3 : 4), "corners merge exactly when their positions are equal");
    if ((int)m.numVertices() == (same ? 3 : 4)) {
        for (int d = 0; d < 3; d++) sym_check(m.vertex(0)->pos()[d] == a[d], "a vertex keeps its position");
        if (!same) for (int d = 0; d < 3; d++) sym_check(m.vertex(3)->pos()[d] == b[d], "a vertex keeps its position");
    }
    auto out = m.getVertices();
    for (int i = 0; i < (int)out.size(); i++)
        for (int d = 0; d < 3; d++) sym_check(out[i][d] == m.vertex(i)->pos()[d], "reported vertices are the positions");
    sym_reach(same ? "merged" : "kept apart");
    sym_outi("V", (int)m.numVertices());
}
static Shape some(int k) {
    switch (k) {
        case 0: return tetra();
        case 1: return wheel(4);
        case 2: return without(wheel(3), { 1, 2 });
        case 3: return grid(3, 3);
        default: return icosa();
    }
}
static void fill(const Shape &s, std::vector<Vec3> &vs, std::vector<uint32_t> &idx, const char *name) {
    Input in = inputOf(s);
    for (size_t i = 0; i < in.vs.size(); i++) {
        Vec3 p = symVec((std::string(name) + std::to_string(i)).c_str(), -B, B);
        for (size_t j = 0; j < i; j++) sym_assume_ne(vs[j][0], p[0]);
        vs.emplace_back(p);
    }
    idx = in.idx;
}
static void sameMesh(const Mesh &a, const Mesh &b, const char *msg) {
    Structure s = inspect(a, "first"), t = inspect(b, "second");
    if (!s.ok || !t.ok) return;
    sym_check(sameStructure(s, t), msg);
    if (s.V != t.V) return;
    for (int i = 0; i < s.V; i++)
        for (int d = 0; d < 3; d++) sym_check_eq(a.vertex(i)->pos()[d], b.vertex(i)->pos()[d], msg);
}
static void rebuild() {
    std::vector<Vec3> v1, v2;
    std::vector<uint32_t> i1, i2;
    fill(some(sym_int("first", 0, 4)), v1, i1, "p");
    fill(some(sym_int("second", 0, 4)), v2, i2, "q");
    Mesh used(v1, i1), fresh(v2, i2);
    used.construct(v2, i2);
    sameMesh(used, fresh, "building into a used object equals building into a fresh one");
    auto vi = used.getVertexIndices();
    auto vs = used.getVertices();
    // the reported data reproduce the input triangles geometrically
    sym_check(vi.size() == i2.size(), "all triangles are reported");
    sym_check(used.verify(), "the self-check succeeds");
    sym_reach("rebuild");
}
static void cloning() {
    std::vector<Vec3> v1;
    std::vector<uint32_t> i1;
    fill(some(sym_int("shape", 0, 4)), v1, i1, "p");
    Mesh a(v1, i1);
    Mesh c = a.clone();
    auto tris = [](const Mesh &m) {
        // triangles as lists of positions
        std::vector<std::array<double, 9>> r;
        auto vs = m.getVertices();
        auto vi = m.getVertexIndices();
        for (size_t i = 0; i + 2 < vi.size(); i += 3) {
            std::array<double, 9> t;
            for (int k = 0; k < 3; k++) for (int d = 0; d < 3; d++) t[3 * k + d] = vs[vi[i + k]][d];
            r.push_back(t);
        }
        return r;
    };
    auto before = tris(a), copy = tris(c);
    sym_check(before.size() == copy.size(), "a clone has the same triangles");
    if (before.size() != copy.size()) return;
    for (size_t i = 0; i < before.size(); i++) {
        // some rotation of the corners matches; the first corner decides which
        int k = 0;
        while (k < 3 && before[i][0] != copy[i][3 * k]) k++;
        sym_check(k < 3, "a clone has the same triangles");
        if (k == 3) return;
        for (int j = 0; j < 9; j++) sym_check_eq(before[i][j], copy[i][(3 * k + j) % 9], "a clone has the same positions");
    }
    inspect(c, "clone");
    // change one of the two, the other stays
    int which = sym_int("changed", 0, 1), how = sym_int("how", 0, 3);
    Mesh &x = which ? c : a, &y = which ? a : c;
    if (how == 0) { x.vertex(0)->setPos(Vec3(100.0, 100.0, 100.0)); x.vertex(1)->lock(); }
    if (how == 1) for (size_t h = 0; h < x.numHalfedges(); h++) if (x.splitHE(x.halfedge((int)h))) break;
    if (how == 2) for (size_t h = 0; h < x.numHalfedges(); h++) if (x.flipHE(x.halfedge((int)h))) break;
    if (how == 3) x.construct({ Vec3(0, 0, 0), Vec3(1, 0, 0), Vec3(0, 1, 0) }, { 0, 1, 2 });
    auto after = tris(y);
    const auto &want = which ? before : copy;
    sym_check(after.size() == want.size(), "changing a clone leaves the original alone, and the other way round");
    if (after.size() != want.size()) return;
    for (size_t i = 0; i < after.size(); i++)
        for (int j = 0; j < 9; j++) sym_check_eq(after[i][j], want[i][j], "changing a clone leaves the original alone, and the other way round");
    for (size_t i = 0; i < y.numVertices(); i++) sym_check(!y.vertex((int)i)->isLocked(), "locking in a clone leaves the original alone");
    inspect(y, "untouched one");
    sym_reach("clone");
}
extern "C" void sym_harness() {
#if defined(H_MANIFOLD)
    shapes();
#elif defined(H_ANY)
    int t = sym_tier();
    switch (sym_int("case", 0, 3)) {
        case 0: freeSoup(1); break;
        case 1: freeSoup(2); break;
        case 2: freeSoup(3); break;
        default: patched(t ? 2 : 1); break;
    }
#elif defined(H_MERGE)
    merging();
#elif defined(H_REBUILD)
    if (sym_int("case", 0, 1)) cloning(); else rebuild();
#endif
}
