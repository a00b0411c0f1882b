// Edge edits: C10 (split), C11 (collapse), C12 (flip), C13 (sequences, self-check).
#include "editlib.h"

static const double B = 16;
static void symPositions(Mesh &m) {
    for (size_t i = 0; i < m.numVertices(); i++) m.vertex((int)i)->setPos(symVec(("p" + std::to_string(i)).c_str(), -B, B));
}
static void locks(Mesh &m) {
    int k = sym_int("locks", 0, 1);
    for (size_t i = 0; i < m.numVertices(); i++)
        if ((int)i % 2 == k) m.vertex((int)i)->lock();
}
static void single(int what) {
    Input in = inputOf(baseShape(sym_int("shape", 0, NSHAPE - 1)));
    Mesh m(in.vs, in.idx);
    Ids ids;
    locks(m);
    symPositions(m);
    State a = grab(m, ids, "before"), b;
    if (!a.s.ok) return;
    Halfedge *he = m.halfedge(sym_int("edge", 0, (int)m.numHalfedges() - 1));
    if (what == 0) editSplit(m, ids, a, he, b);
    else editFlip(m, ids, a, he, b);
    sym_check(m.verify(), "the self-check succeeds");
    if (!b.s.ok) return;
    sym_check(b.s.euler() == a.s.euler(), "the Euler characteristic is kept");
    sym_outi("V", b.s.V);
    sym_outi("F", b.s.F);
}
// one vertex at the edge slides along a line, the rest of the mesh is fixed
static void collapse() {
    int k = sym_int("shape", 0, NSHAPE - 1);
    Input in = inputOf(baseShape(k));
    Mesh m(in.vs, in.idx);
    Ids ids;
    Halfedge *he = m.halfedge(sym_int("edge", 0, (int)m.numHalfedges() - 1));
    Vertex *v = sym_int("moved", 0, 1) ? he->next()->dst() : he->src();
    Vec3 p = v->pos();
    double t = sym_real("t", -B, B);
    switch (sym_int("line", 0, sym_tier() ? 3 : 2)) {
        case 0: p[0] = t; break;
        case 1: p[1] = t; break;
        case 2: p[2] = t; break;
        default: p = Vec3(p[0] + t, p[1] - 2 * t, p[2] + 3 * t); break;
    }
    v->setPos(p);
    State a = grab(m, ids, "before"), b;
    if (!a.s.ok) return;
    bool ok = editCollapse(m, ids, a, he, b);
    if (!b.s.ok) return;
    sym_check(m.verify(), "the self-check succeeds");
    sym_check(b.s.euler() == a.s.euler(), "the Euler characteristic is kept");
    if (ok) {
        // two vertices may lie at the same place now only if they did before
        sym_outi("V", b.s.V);
    }
    sym_outi("ok", ok);
}
static void sequence(int steps) {
    static const int pick[] = { 2, 10, 3, 5, 6 };
    const bool deep = sym_tier() != 0;
    Input in = inputOf(baseShape(pick[sym_int("shape", 0, deep ? 4 : 2)]));
    Mesh m(in.vs, in.idx);
    Ids ids;
    int mv = deep ? sym_int("moved", 0, 1) : 0;
    Vertex *v = m.vertex(mv ? (int)m.numVertices() / 2 : 0);
    Vec3 p = v->pos();
    p[2] = sym_real("z", -B, B);
    v->setPos(p);
    State a = grab(m, ids, "before");
    int euler = a.s.euler();
    for (int i = 0; i < steps && a.s.ok; i++) {
        int what = sym_int("what", 0, 3);
        State b;
        if (what == 3) {
            std::vector<Face *> fs;
            for (size_t f = 0; f < m.numFaces(); f++) if (!m.face((int)f)->isHole()) fs.push_back(m.face((int)f));
            m.collapseFace(fs[sym_int("face", 0, deep || i ? (int)fs.size() - 1 : 4)]);
            b = grab(m, ids, "after collapsing a face");
            sym_reach("face");
        } else {
            Halfedge *he = m.halfedge(sym_int("edge", 0, deep || i ? (int)m.numHalfedges() - 1 : 11));
            if (what == 0) editSplit(m, ids, a, he, b);
            if (what == 1) editFlip(m, ids, a, he, b);
            if (what == 2) editCollapse(m, ids, a, he, b);
        }
        if (!b.s.ok) return;
        sym_check(b.s.euler() == euler, "the Euler characteristic is kept");
        sym_check(m.verify(), "the self-check succeeds");
        samePositions(a, b, "edits move no vertex");
        a = b;
    }
    sym_outi("V", a.s.V);
    sym_outi("F", a.s.F);
    sym_reach("sequence");
}
static void selfCheck() {
    sym_mode(SYM_FPA);
    Input in = inputOf(baseShape(sym_int("shape", 0, 3)));
    Mesh m(in.vs, in.idx);
    int i = sym_int("v", 0, (int)m.numVertices() - 1);
    double x = sym_any("x"), y = sym_any("y"), z = sym_any("z");
    m.vertex(i)->setPos(Vec3(x, y, z));
    bool ok = m.verify();
    auto fin = [](double t) { return t - t == 0.0; };
    bool want = fin(x) && fin(y) && fin(z);
    sym_check(ok == want, "the self-check fails exactly when a position is not finite");
    sym_reach(want ? "finite" : "not finite");
    sym_outi("ok", ok);
}
extern "C" void sym_harness() {
#if defined(H_SPLIT)
    single(0);
#elif defined(H_FLIP)
    single(1);
#elif defined(H_COLLAPSE)
    collapse();
#elif defined(H_SEQ)
    sequence(2);
#elif defined(H_SELF)
    selfCheck();
#endif
}
