// C28, C29: simplification and remeshing.
#include "editlib.h"
#include "filters/filters.h"
#include "remesh/remesh.h"

#ifdef H_SIMPLIFY
// The order in which edges are taken and the points they are contracted to are left open: one edge comes first, and
// contracted vertices are placed on the line through the middle of the edge along a fixed direction.
static const Mesh *theMesh = nullptr;
static int theFirst = -1, theCall = 0;
static double thePlace = 0;
extern "C" __attribute__((used)) double stub_qem(const void *, const void *, const Vertex *a, const Vertex *b, Vec3 *v) {
    int call = theCall++;
    if (v) {
        Vec3 p = a->pos(), q = b->pos();
        *v = Vec3(0.5 * (p[0] + q[0]), 0.5 * (p[1] + q[1]), 0.5 * (p[2] + q[2]));
        if (call == theFirst) (*v)[1] += 0.25 * thePlace, (*v)[2] += thePlace;
    }
    return call == theFirst ? -1.0 : 1.0 + call;
}
static int eulerOf(const State &s) { return s.s.V - s.s.E + s.s.F; }
extern "C" void sym_harness() {
    static const int shapes[6] = { 2, 5, 6, 8, 10, 9 };
    int k = sym_int("shape", 0, 5);
    Input in = inputOf(baseShape(shapes[k]));
    Mesh m(in.vs, in.idx), other(in.vs, in.idx);
    Ids ids, ids2;
    State a = grab(m, ids, "before");
    grab(other, ids2, "before");
    if (!a.s.ok) return;
    const int F = a.s.F, H = 2 * a.s.E;
    int kind = sym_int("case", 0, 3);
    sym_lazy(1);
    theCall = 0;
    if (kind == 0) {   // nothing to do
        int more = sym_int("more", 0, 2);
        thePlace = 0.0;
        bool verbose = sym_int("verbose", 0, 1);
        simplifyQEM(m, F + more, 2, verbose);
        State b = grab(m, ids, "after simplification");
        if (b.s.ok) unchanged(a, b, "a mesh that is small enough is left alone");
        sym_reach("small enough");
        return;
    }
    if (kind == 1) {
        int out = sym_try([&] { simplifyQEM(m, 0, 2, false); });
        sym_check(out != 0, "a target of zero is rejected");
        sym_reach("zero");
        return;
    }
    // kind 2: one contraction at a free place, any edge first; kind 3: any target, fixed places
    int remove = kind == 2 ? sym_int("remove", 1, 2) : sym_int("remove", 1, sym_tier() ? F - 1 : 9), verbose = kind == 3;
    if (remove >= F) return;
    theFirst = kind == 2 ? sym_int("first", 0, H - 1) : -1;
    if (kind == 2 && !sym_tier()) sym_assume(theFirst % 7 == k);
    thePlace = kind == 2 ? sym_real("place", -2, 2) : 0.0;
    if (kind == 2) sym_note("any edge may come first; its new position lies anywhere on a line through its middle");
    int out = sym_try([&] { simplifyQEM(m, F - remove, 1, verbose); });
    sym_check(out == 0, "simplification returns");
    if (out) return;
    State b = grab(m, ids, "after simplification");
    if (!b.s.ok) return;
    sym_check(F - b.s.F <= remove + 1, "no more than one face is removed beyond the target");
    sym_check(b.s.F <= F && (F - b.s.F) % 2 == 0, "faces are only removed, in pairs");
    sym_check(eulerOf(a) == eulerOf(b) && b.loops.size() == a.loops.size(), "simplification keeps the Euler characteristic and the boundary");
    sym_check(b.loops == a.loops, "boundary vertices are not removed");
    for (auto &l : a.loops)
        for (int v : l)
            if (b.pos.count(v))
                for (int d = 0; d < 3; d++) sym_check_eq(b.pos.at(v)[d], a.pos.at(v)[d], "boundary vertices do not move");
    if (kind == 3) {   // the same without a progress bar
        theCall = 0;
        simplifyQEM(other, F - remove, 1, false);
        State c = grab(other, ids2, "after quiet simplification");
        if (!c.s.ok) return;
        sym_check(c.tris == b.tris && c.loops == b.loops && c.order == b.order, "progress reports do not change the outcome");
        samePositions(b, c, "progress reports do not change positions");
        sym_reach(remove % 2 ? "odd target" : "even target");
    }
    sym_out("x", m.vertex(0)->pos()[0]);
    sym_reach(b.s.F < F ? "removed" : "kept");
}
#endif
#ifdef H_REMESH
// The visiting order of the half-edges is left open: it starts anywhere and goes either way, or is interleaved.
static int theStep = 1, theWays = 5;
extern "C" __attribute__((used)) void stub_shuffle(uint32_t *a, uint32_t *b, void *) {
    static int calls = 0;
    std::string name = "order" + std::to_string(calls++);
    const int n = (int)(b - a);
    if (n == 0) return;
    int way = calls <= 2 || sym_tier() ? sym_int(name.c_str(), 0, theWays) : 0;
    std::vector<uint32_t> old(a, b), out;
    if (way < 2) out = old;
    else if (way < 4) {   // interleaved
        int stride = 2 * theStep + 3;
        for (int s = 0; s < stride; s++)
            for (int i = s; i < n; i += stride) out.push_back(old[i]);
    } else {
        out = old;
        std::rotate(out.begin(), out.begin() + n * (theStep + 1) / 4, out.end());
    }
    if (way % 2) std::reverse(out.begin(), out.end());
    std::copy(out.begin(), out.end(), a);
}
extern "C" __attribute__((used)) unsigned stub_random(void *) { return 7; }

// opening angle between the two triangles at the edge
static double opening(const State &s, int u, int v, int c, int d) {
    auto at = [&](int k) { return Vec3(s.pos.at(k)[0], s.pos.at(k)[1], s.pos.at(k)[2]); };
    Vec3 e = at(v) - at(u), x = at(c) - at(u), y = at(d) - at(u);
    double ee = e[0] * e[0] + e[1] * e[1] + e[2] * e[2];
    double xe = (x[0] * e[0] + x[1] * e[1] + x[2] * e[2]) / ee, ye = (y[0] * e[0] + y[1] * e[1] + y[2] * e[2]) / ee;
    double xx = 0, yy = 0, xy = 0;
    for (int k = 0; k < 3; k++) {
        double p = x[k] - xe * e[k], q = y[k] - ye * e[k];
        xx += p * p; yy += q * q; xy += p * q;
    }
    return std::acos(std::max(-1.0, std::min(1.0, xy / std::sqrt(xx * yy))));
}
extern "C" void sym_harness() {
    static const int shapes[7] = { 2, 5, 6, 8, 10, 9, 11 };
    int k = sym_int("shape", 0, 6);
    Input in = inputOf(baseShape(shapes[k]));
    Mesh m(in.vs, in.idx);
    Ids ids;
    int kind = sym_int("case", 0, 2);
    // 0: any two thresholds, 1: any angle bound, 2: several iterations
    int locks = sym_int("locks", 0, sym_tier() ? 3 : 1);
    theStep = sym_int("stride", 0, sym_tier() ? 4 : 1);
    if (kind != 1 && !sym_tier()) {
        sym_assume(theStep == (locks + k) % 2);
        theWays = 2;
    }
    for (int i = 0; i < (int)m.numVertices(); i++)
        if (locks && i % 4 == locks) m.vertex(i)->lock();
    State a = grab(m, ids, "before");
    if (!a.s.ok) return;
    double lo = 0.75, hi = 1.375, keep = 0.0;
    int rounds = 1;
    int free = kind ? 0 : sym_int("free", 0, 2);   // which thresholds are open: both only on small or regular meshes
    if (free == 2 && !sym_tier()) sym_assume(k != 1 && k != 4 && k != 5);
    if (kind == 0 && free != 1) lo = sym_real("short", 0, 2);
    if (kind == 0 && free != 0) hi = sym_real("long", sym_tier() ? 0.25 : 0.75, 3);
    bool still = kind == 1 && theStep == 1;
    if (kind == 1) keep = sym_real("angle", 0, 3.25), lo = still ? 0.0 : lo;
    if (kind == 2) rounds = sym_int("iterations", 2, sym_tier() ? 4 : 2), lo = sym_real("short", 0.5, 1);
    int out = sym_try([&] { remeshTriangular(m, lo, hi, keep, rounds, false); });
    sym_check(out == 0, "remeshing returns");
    if (out) return;
    State b = grab(m, ids, "after remeshing");
    if (!b.s.ok) return;
    sym_check(a.s.V - a.s.E + a.s.F == b.s.V - b.s.E + b.s.F, "remeshing keeps the Euler characteristic");
    sym_check(a.loops.size() == b.loops.size(), "remeshing keeps the number of boundary loops");
    size_t before = 0, after = 0;
    for (auto &l : a.loops) before += l.size();
    for (auto &l : b.loops) after += l.size();
    sym_check(after <= before, "boundary edges are not split");
    if (still) {
        sym_check(a.loops == b.loops, "without contractions the boundary stays as it is");
        sym_check(b.s.V >= a.s.V, "without contractions no vertex disappears");
    }
    std::set<int> kept;
    for (auto &l : a.locked) if (l.second) kept.insert(l.first);
    if (kind == 1)
        for (auto &e : a.edges) {
            int c = apex(a, e.first, e.second), d = apex(a, e.second, e.first);
            if (e.first > e.second || c < 0 || d < 0) continue;
            if (opening(a, e.first, e.second, c, d) + 1e-9 < keep) kept.insert(e.first), kept.insert(e.second);
        }
    for (int v : kept) {
        sym_check(b.pos.count(v), "locked and feature vertices still exist");
        if (!b.pos.count(v)) continue;
        for (int d = 0; d < 3; d++) sym_check_eq(b.pos.at(v)[d], a.pos.at(v)[d], "locked and feature vertices do not move");
        sym_check(!a.locked.at(v) || b.locked.at(v), "locks are kept");
    }
    if (!kept.empty() && kind == 1) sym_reach("features");
    sym_out("x", m.vertex(0)->pos()[0]);
    sym_reach(b.s.V > a.s.V ? "more vertices" : b.s.V < a.s.V ? "fewer vertices" : "as many vertices");
}
#endif
