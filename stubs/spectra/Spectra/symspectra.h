// Eigen-solvers as the code under check sees them: they deliver any eigenpairs the harness supplies, or fail.
#pragma once
#include <Eigen/Core>
#include <Eigen/SparseCore>
namespace symspectra {
struct Given {
    Eigen::MatrixXd U;          // one column per pair, ordered as the pairs
    Eigen::VectorXd lambda;     // smallest magnitude first
    bool fail = false;
    int asked = 0, computed = 0;
    const void *matrix = nullptr;
};
inline Given &given() {
    static Given g;
    return g;
}
}  // namespace symspectra
namespace Spectra {
enum class SortRule { LargestMagn, LargestReal, LargestImag, LargestAlge, SmallestMagn, SmallestReal, SmallestImag, SmallestAlge, BothEnds };
enum class CompInfo { Successful, NotComputed, NotConverging, NumericalIssue };
template <class S, int U = Eigen::Lower, int F = Eigen::ColMajor, class I = int>
struct AnyOp {
    using Scalar = S;
    template <class M>
    explicit AnyOp(const M &m) { symspectra::given().matrix = &m; }
};
template <class S, int U = Eigen::Lower, int F = Eigen::ColMajor, class I = int> using SparseSymShiftSolve = AnyOp<S, U, F, I>;
template <class S, int U = Eigen::Lower, int F = Eigen::ColMajor, class I = int> using SparseSymMatProd = AnyOp<S, U, F, I>;
template <class S, int U = Eigen::Lower, int F = Eigen::ColMajor> using DenseSymMatProd = AnyOp<S, U, F>;
template <class Op>
struct AnyEigs {
    int k = 0;
    bool done = false;
    SortRule order = SortRule::LargestAlge;
    AnyEigs(Op &, long nev, long) : k((int)nev) { symspectra::given().asked = k; }
    AnyEigs(Op &, long nev, long, double) : k((int)nev) { symspectra::given().asked = k; }
    void init() {}
    void init(const double *) {}
    long compute(SortRule = SortRule::LargestMagn, long = 1000, double = 1e-10, SortRule sorting = SortRule::LargestAlge) {
        done = true;
        order = sorting;
        symspectra::given().computed++;
        return symspectra::given().fail ? 0 : k;
    }
    CompInfo info() const { return !done ? CompInfo::NotComputed : symspectra::given().fail ? CompInfo::NotConverging : CompInfo::Successful; }
    bool down() const { return order == SortRule::LargestMagn || order == SortRule::LargestAlge || order == SortRule::LargestReal; }
    Eigen::VectorXd eigenvalues() const {
        Eigen::VectorXd r(k);
        for (int i = 0; i < k; i++) r(i) = symspectra::given().lambda(down() ? k - 1 - i : i);
        return r;
    }
    Eigen::MatrixXd eigenvectors() const { return eigenvectors(k); }
    Eigen::MatrixXd eigenvectors(long nvec) const {
        Eigen::MatrixXd r(symspectra::given().U.rows(), nvec);
        for (int i = 0; i < nvec; i++) r.col(i) = symspectra::given().U.col(down() ? k - 1 - i : i);
        return r;
    }
};
template <class Op> using SymEigsSolver = AnyEigs<Op>;
template <class Op> using SymEigsShiftSolver = AnyEigs<Op>;
}  // namespace Spectra
