// C32: every loop iteration that runs in parallel is a thread of its own; no two touch the same data, and the outcome
// does not depend on the order in which they run.
#include "netlib.h"
#include "filters/filters.h"

extern "C" int __race_order;
extern "C" void __race_reset();
extern "C" long __race_regions, __race_iterations, __race_accesses, __race_conflicts;

static void run(Mesh &m, int which, int it, double s) {
    switch (which) {
        case 0: smoothLaplacian(m, s, false, it); break;
        case 1: smoothLaplacian(m, s, true, it); break;
        case 2: smoothTaubin(m, s, 0.53125, it); break;
        case 3: denoiseNormalGaussian(m, s, it); break;
        default: denoiseNormalBilateral(m, s, 0.5, it); break;
    }
}
extern "C" void sym_harness() {
    static const int shapes[5] = { 0, 1, 8, 6, 2 };
    const int which = sym_int("filter", 0, 4);
    const bool open = which < 3;
    const int k = sym_int("shape", 0, open ? sym_tier() ? 4 : 3 : sym_tier() ? 2 : 1);
    Shape sh = !open && k == 2 ? bipyramid(5) : baseShape(shapes[k]);
    Input in = inputOf(sh);
    // once before, so that whatever is set up only once is there
    {
        Mesh w(in.vs, in.idx);
        run(w, which, 1, 0.25);
    }
    const int it = which == 1 || which > 2 ? 1 : sym_int("iterations", 1, 2);
    const int order = sym_int("order", 1, 2);
    Mesh a(in.vs, in.idx), b(in.vs, in.idx);
    const int free = which == 0 || which == 2 ? (int)a.numVertices() : which == 1;
    for (int i = 0; i < (int)a.numVertices(); i++) {
        Vec3 p = a.vertex(i)->pos();
        if (i < free) p[2] = p[2] + sym_real(("z" + std::to_string(i)).c_str(), -0.25, 0.25);
        if (i < free && free > 1) p[1] = p[1] + sym_real(("y" + std::to_string(i)).c_str(), -0.25, 0.25);
        a.vertex(i)->setPos(p);
        b.vertex(i)->setPos(p);
        if (open && i % 3 == 2 && k == 1) a.vertex(i)->lock(), b.vertex(i)->lock();
    }
    const double s = which < 3 ? sym_real("strength", -1, 1) : sym_real("width", 0.0625, 4);
    sym_div_policy(SYM_DIV_ASSUME);
    sym_lazy(which == 1);
    sym_generic(which == 1 || which > 2);
    sym_abstract_roots(which > 2);
    __race_regions = __race_iterations = __race_accesses = __race_conflicts = 0;
    __race_order = 0;
    int ra = sym_try([&] { run(a, which, it, s); });
    __race_reset();
    sym_check(__race_conflicts == 0, "no iteration of a parallel loop touches data that another one writes");
    if (__race_regions && __race_iterations > __race_regions && __race_accesses) sym_reach(which < 3 ? "parallel smoothing" : "parallel denoising");
    __race_order = order;
    int rb = sym_try([&] { run(b, which, it, s); });
    __race_reset();
    __race_order = 0;
    sym_check(__race_conflicts == 0, "no iteration of a parallel loop touches data that another one writes");
    sym_check(ra == rb, "the outcome does not depend on the order of the iterations");
    if (ra || rb) return;
    for (int i = 0; i < (int)a.numVertices(); i++)
        for (int d = 0; d < 3; d++) {
            double x = a.vertex(i)->pos()[d], y = b.vertex(i)->pos()[d];
            sym_check_eq(x, y, "positions do not depend on the order of the iterations");
        }
    if (which == 0 || which == 2) sym_out("x", a.vertex(0)->pos()[0]);   // roots are exact here
    sym_reach("compared");
}
