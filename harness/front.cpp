// C16: advancing-front hole filling with every sequence of front decisions.
#include "editlib.h"
#include "restore/restore.h"
#include "symsolve_real.h"
#include "symsolve.h"

// The opening angles of the front are left open for a number of steps, then they are small, which closes the hole.
static Face *theHole = nullptr;
static int theFree = 0, theCalls = 0, theSteps = 0;
static size_t theEdges = 0;
static int theMin = 0;
static double theAngle = 0;
static Mesh *theMesh = nullptr;
extern "C" __attribute__((used)) double stub_atan2(double y, double x) {
    if (theHole && theHole->he_begin()->isBoundary()) {
        if (theMesh->numHalfedges() != theEdges) {   // next step: any vertex has the smallest angle, which is any value
            theEdges = theMesh->numHalfedges();
            theSteps++;
            theCalls = 0;
            if (theSteps <= theFree) {
                int n = 0;
                for (auto it = theHole->he_begin(); it != theHole->he_end(); ++it) n++;
                theMin = sym_int(("vertex" + std::to_string(theSteps)).c_str(), 0, n - 1);
                theAngle = sym_real(("angle" + std::to_string(theSteps)).c_str(), 0.0625, 3);
            }
        }
        int call = theCalls++;
        if (theSteps <= theFree) return call == theMin ? theAngle : theAngle + 0.125 + 0.015625 * call;
        return 0.5;
    }
    return (double)std::atan2((long double)y, (long double)x);
}
// The mean edge length, which decides what vertices of the front are merged, is left open as well.
extern "C" __attribute__((used)) double stub_mean(const Mesh *) { return theHole ? sym_real("mean", 0.015625, 8) : 0.75; }
extern "C" void sym_harness() {
    int k = sym_int("shape", 0, sym_tier() ? 6 : 5);
    Shape s = k == 0 ? without(icosa(), { 0, 1, 2, 3, 4 }) : k == 1 ? wheel(5) : k == 2 ? without(icosa(), { 0, 1 }) : k == 3 ? without(icosa(), { 0 }) : k == 4 ? without(torus(5, 5), { 0, 1 }) : k == 5 ? wheel(4) : grid(3, 3);
    Input in = inputOf(s);
    Mesh m(in.vs, in.idx);
    // a vertex away from the hole lies anywhere
    Ids ids;
    {
        State o = grab(m, ids, "before");
        if (!o.s.ok) return;
        const std::vector<int> &loop = o.loops.back();
        for (int i = 0; i < (int)m.numVertices(); i++) {
            bool far = true;
            for (int v : loop) {
                if (v == o.order[i] || o.nbr[v].count(o.order[i])) far = false;
                for (int w : o.nbr[v]) if (w == o.order[i]) far = false;
            }
            if (!far) continue;
            m.vertex(i)->setPos(Vec3(sym_real("x", -4, 4), sym_real("y", -4, 4), sym_real("z", -4, 4)));
            break;
        }
    }
    State a = grab(m, ids, "before");
    if (!a.s.ok) return;
    Face *hole = nullptr;
    for (size_t i = 0; i < m.numFaces(); i++) if (m.face((int)i)->isHole()) hole = m.face((int)i);
    if (!hole) return;
    const size_t N = a.loops.back().size();
    theMesh = &m;
    const int open = sym_int("open", 0, 1);   // 0: the real angles
    theHole = open ? hole : nullptr;
    theFree = (N > 4 ? 2 : 3) + sym_tier();
    if (open) sym_note("the opening angles at the front are any values for the first steps and small afterwards, the mean edge length is any value (over-approximation)");
    int out = sym_try([&] { holeFillAdvancingFront(m, hole); });
    theHole = nullptr;
    if (!open) sym_check(out == 0, "filling returns");
    if (out) return;   // angles that contradict the positions can end in an error
    State b = grab(m, ids, "after filling");
    if (!b.s.ok) return;
    sym_check(b.loops.size() + 1 == a.loops.size(), "the hole is covered by triangles");
    sym_check(2 * b.s.F == 2 * b.s.E - 2 * b.s.V + 2 * (a.s.V - a.s.E + a.s.F), "filling keeps the Euler characteristic");
    for (auto &e : b.boundary) {
        bool still = false;
        for (auto &l : b.loops) still = still || (std::count(l.begin(), l.end(), e.first) && std::count(l.begin(), l.end(), e.second));
        sym_check(still, "nothing around the hole is marked as boundary");
    }
    for (auto &t : a.tris) sym_check(b.has(t), "all triangles are still there");
    for (auto &p : a.pos) {
        sym_check(b.pos.count(p.first), "all vertices are still there");
        if (!b.pos.count(p.first)) continue;
        for (int d = 0; d < 3; d++) sym_check_eq(b.pos.at(p.first)[d], p.second[d], "vertices that existed before stay in place");
    }
    sym_out("x", m.vertex((int)m.numVertices() - 1)->pos()[0]);
    sym_reach(b.s.V == a.s.V ? "triangles only" : "new vertices");
    if (N == 3) sym_reach("triangle");
}
