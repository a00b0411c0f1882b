// C15: filling holes by minimum dihedral triangulation.
#include "editlib.h"
#include "restore/restore.h"

static bool equalAngles = false;
// In the encoding the angle between two faces is any value of its range and the larger of two angles
// is any value not below either (for larger holes all angles are the same, areas decide): which triangulation is chosen is left open, every choice is explored.
extern "C" __attribute__((used)) double stub_dihedral(const Vec3 *, const Vec3 *, const Vec3 *, const Vec3 *, void *) { return equalAngles ? 2.0 : sym_fresh(0, Pi); }
extern "C" __attribute__((used)) const double *stub_max(const double *a, const double *b) {
    if (!sym_is_symbolic(*a) && !sym_is_symbolic(*b)) return *a < *b ? b : a;
    double *r = new double(sym_fresh(-8, 8));
    sym_assume_le(*a, *r);
    sym_assume_le(*b, *r);
    return r;
}
static Shape holed(int k) {
    switch (k) {
        case 0: return without(icosa(), { 0 });
        case 1: return without(wheel(3), { 1, 2 });
        case 2: return without(icosa(), { 0, 12 });
        case 3: return icosa();
        case 4: return without(icosa(), { 0, 1 });
        case 5: return wheel(4);
        case 6: return joined(without(icosa(), { 0, 1, 13, 14 }), without(wheel(3), { 1, 2 }), 8);
        case 7: return without(icosa(), { 0, 1, 2, 3, 4 });
        case 8: return wheel(5);
        case 10: return wheel(6);
        case 9: return without(bipyramid(6), { 0, 2, 4 });
        default: return without(torus(5, 5), { 12, 13, 3, 0, 10, 1 });
    }
}
static bool chords(const State &s) {   // two vertices of a hole joined by an edge that is not one of the hole's
    for (auto &l : s.loops)
        for (size_t i = 0; i < l.size(); i++)
            for (size_t j = i + 2; j < l.size(); j++)
                if (!(i == 0 && j + 1 == l.size()) && s.edges.count({ l[i], l[j] })) return true;
    return false;
}
static void judge(const Mesh &m, const State &a, const State &b) {
    if (!b.s.ok) return;
    size_t want = a.tris.size();
    for (auto &l : a.loops) want += l.size() - 2;
    sym_check(b.loops.empty() && b.boundary.empty(), "no hole is left and nothing is marked as boundary");
    sym_check(b.order == a.order, "no vertex is added or removed");
    sym_check(b.tris.size() == want && (size_t)b.s.F == want, "an n-sided hole gets n-2 triangles");
    for (auto &t : a.tris) sym_check(b.has(t), "every original triangle is kept");
    for (auto &t : b.tris) {
        if (a.has(t)) continue;
        bool inOne = false;
        for (auto &l : a.loops) {
            std::set<int> ls(l.begin(), l.end());
            inOne = inOne || (ls.count(t[0]) && ls.count(t[1]) && ls.count(t[2]));
        }
        sym_check(inOne, "a new triangle joins vertices of one hole");
    }
    samePositions(a, b, "filling moves no vertex");
    sym_check(locksKept(a, b), "filling keeps locks");
    sym_check(m.verify(), "the self-check succeeds");
}
extern "C" void sym_harness() {
    sym_limits(300, 300);
    sym_abstract_roots(1);
    sym_note("angles between faces and areas are any values of their range (over-approximation)");
    int k = sym_int("shape", 0, sym_tier() ? 11 : 10);
    Input in = inputOf(holed(k));
    Mesh m(in.vs, in.idx);
    Ids ids;
    State a0 = grab(m, ids, "before");
    if (!a0.s.ok) return;
    sym_check(!chords(a0), "harness: no chords");
    // which positions are free
    std::set<int> rim;
    for (auto &l : a0.loops) for (int v : l) rim.insert(v);
    size_t longest = 0;
    for (auto &l : a0.loops) longest = std::max(longest, l.size());
    equalAngles = longest > 5 || (longest > 4 && !(sym_tier() && (k == 8 || k == 9)));
    if (equalAngles) sym_note("holes with more than four sides (five in the thorough tier): all angles equal, the choice is left to the areas");
    for (size_t i = 0; i < m.numVertices(); i++) m.vertex((int)i)->setPos(symVec(("p" + std::to_string(i)).c_str(), -16, 16));
    if (!a0.order.empty()) m.vertex(0)->lock();
    State a = grab(m, ids, "before");
    if (sym_int("entry", 0, 1) == 0) m.fillHoles();
    else {
        std::vector<Face *> hs;
        for (size_t i = 0; i < m.numFaces(); i++) if (m.face((int)i)->isHole()) hs.push_back(m.face((int)i));
        for (auto *f : hs) holeFillMinDihedral(m, f, sym_int("bound", 0, 1) ? 0.125 : Pi);
    }
    State b = grab(m, ids, "after filling");
    judge(m, a, b);
    if (b.s.ok && a.loops.empty()) unchanged(a, b, "filling a closed mesh changes nothing");
    sym_reach(a.loops.empty() ? "closed" : a.loops.size() > 1 ? "several holes" : longest == 3 ? "triangle" : longest == 4 ? "quad" : "larger");
    sym_outi("F", b.s.F);
}
