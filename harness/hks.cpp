// C25: heat kernel signatures for any eigenpairs the eigen-solver delivers.
#include "common.h"
#include "minmax.h"
#include "ops/ops.h"
#include <Spectra/SymEigsShiftSolver.h>
using namespace tinymesh;

extern "C" void sym_harness() {
    int N = sym_int("points", 3, sym_tier() ? 5 : 4), K = sym_int("pairs", 2, N + 1), T = sym_int("times", 2, sym_tier() ? 5 : 4);
    int fail = sym_int("fail", 0, 1), small = sym_int("small", 0, 2);
    EigenSparseMatrix L(N, N);
    symspectra::Given &g = symspectra::given();
    g = symspectra::Given();
    g.fail = fail;
    g.U.resize(N, K);
    g.lambda.resize(K);
    sym_note("the eigen-solver delivers any eigenpairs, smallest magnitude first, or reports a failure");
    for (int k = 0; k < K; k++) {
        g.lambda(k) = sym_real(("l" + std::to_string(k)).c_str(), k ? 0 : -1e-3, 100);
        for (int i = 0; i < N; i++) g.U(i, k) = sym_real(("u" + std::to_string(i) + "_" + std::to_string(k)).c_str(), -1, 1);
    }
    sym_lazy(1);
    // eigenvalues below 1e-12 count as 1e-12 where the times are chosen
    double lo = g.lambda(1), hi = g.lambda(K - 1);
    if (K == 2 && small == 1) return;
    if (small == 0) { sym_assume_lt(1e-12, lo); if (K > 2) sym_assume_lt(1e-12, hi); }
    else if (small == 1) { sym_assume_le(lo, 1e-12); sym_assume_lt(1e-12, hi); lo = 1e-12; }
    else { sym_assume_le(lo, 1e-12); if (K > 2) sym_assume_le(hi, 1e-12); lo = hi = 1e-12; }
    EigenMatrix H;
    int out = sym_try([&] { H = getHeatKernelSignatures(L, K, T); });
    if (K >= N || fail) {
        sym_check(out != 0, K >= N ? "asking for as many eigenpairs as there are points is an error" : "a failed eigen-decomposition is an error");
        sym_reach(K >= N ? "too many" : "failed");
        return;
    }
    sym_check(out == 0, "signatures are computed");
    if (out) return;
    sym_check(g.matrix == &L && g.asked == K, "the eigenpairs asked for are those of the operator");
    sym_check(H.rows() == N && H.cols() == T, "there is a row per point and a column per time");
    if (H.rows() != N || H.cols() != T) return;
    double t0 = std::log(4.0 * std::log(10) / hi), t1 = std::log(4.0 * std::log(10) / lo), step = (t1 - t0) / (T - 1);
    for (int t = 0; t < T; t++) {
        double time = std::exp(t0 + t * step);
        for (int i = 0; i < N; i++) {
            double s = 0;
            for (int k = 0; k < K; k++) s = s + std::exp(-time * g.lambda(k)) * (g.U(i, k) * g.U(i, k));
            sym_check_eq(H(i, t), s, "a signature is the sum over the eigenpairs at logarithmically spaced times");
        }
    }
    sym_out("h", H(0, 0));
    sym_reach(small == 0 ? "signature" : "small");
}
