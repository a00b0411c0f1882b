// Sparse linear solvers as seen by the encoding: the system is recorded and the solution is any matrix
// (the harness states what it must satisfy).  In the native build the real solvers run, recorded too.
#pragma once
#include "symfp.h"
#include <Eigen/Dense>
#include <functional>
#include <vector>
namespace symsolve {
struct System {
    Eigen::MatrixXd A, B, X;
    int info = 0;
};
inline std::vector<System> &log() {
    static std::vector<System> v;
    return v;
}
inline std::function<void(const System &)> &onSolve() {   // assumptions on the solution
    static std::function<void(const System &)> f;
    return f;
}
inline int &failing() {   // when set, the next solvers report that they did not succeed
    static int f = 0;
    return f;
}
template <class M>
inline Eigen::MatrixXd dense(const M &m) { return Eigen::MatrixXd(m); }
#ifdef SYMFP
struct Base {
    Eigen::MatrixXd A;
    template <class D>
    Base &compute(const Eigen::SparseMatrixBase<D> &m) { A = Eigen::MatrixXd(m.derived()); return *this; }
    template <class D>
    void analyzePattern(const Eigen::SparseMatrixBase<D> &) {}
    template <class D>
    void factorize(const Eigen::SparseMatrixBase<D> &m) { compute(m); }
    template <class R>
    Eigen::Matrix<double, R::RowsAtCompileTime, R::ColsAtCompileTime> solve(const Eigen::MatrixBase<R> &b) const {
        System s;
        s.A = A;
        s.B = b;
        const int n = (int)A.rows(), k = (int)s.B.cols();
        Eigen::MatrixXd cA(n, n), cB(n, k);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) cA(i, j) = sym_concrete(s.A(i, j));
        for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) cB(i, j) = sym_concrete(s.B(i, j));
        Eigen::MatrixXd W = cA.partialPivLu().solve(cB);
        s.X.resize(n, k);
        for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) s.X(i, j) = sym_fresh_at(-1e6, 1e6, W(i, j));
        sym_note("the linear solver is any that solves its system: its result is an arbitrary matrix, the system handed to it is what is checked");
        log().push_back(s);
        if (onSolve()) onSolve()(s);
        Eigen::Matrix<double, R::RowsAtCompileTime, R::ColsAtCompileTime> r(n, k);
        r = s.X;
        return r;
    }
    template <class R, class G>
    Eigen::Matrix<double, R::RowsAtCompileTime, R::ColsAtCompileTime> solveWithGuess(const Eigen::MatrixBase<R> &b, const G &) const { return solve(b); }
    Eigen::ComputationInfo info() const { return failing() ? Eigen::NumericalIssue : Eigen::Success; }
    void setTolerance(double) {}
    void setMaxIterations(long) {}
    void setShift(double, double = 1) {}
    void isSymmetric(bool) {}
    long iterations() const { return 0; }
    double error() const { return 0; }
    double tolerance() const { return 0; }
    long maxIterations() const { return 0; }
};
#define SYMSOLVE_BODY(Name)                        \
    Name() {}                                      \
    template <class D>                             \
    explicit Name(const Eigen::SparseMatrixBase<D> &m) { this->compute(m); }
#define SYMSOLVE_BASE(...) symsolve::Base
#else
template <class S>
struct Wrap : S {
    Eigen::MatrixXd A;
    template <class D>
    Wrap &compute(const Eigen::SparseMatrixBase<D> &m) {
        keep = m.derived();
        A = Eigen::MatrixXd(keep);
        S::compute(keep);
        return *this;
    }
    template <class D>
    void factorize(const Eigen::SparseMatrixBase<D> &m) {
        keep = m.derived();
        A = Eigen::MatrixXd(keep);
        S::factorize(keep);
    }
    template <class R>
    Eigen::Matrix<double, R::RowsAtCompileTime, R::ColsAtCompileTime> solve(const Eigen::MatrixBase<R> &b) const {
        System s;
        s.A = A;
        s.B = b;
        Eigen::Matrix<double, R::RowsAtCompileTime, R::ColsAtCompileTime> r = S::solve(b.derived());
        s.X = r;
        log().push_back(s);
        if (onSolve()) onSolve()(s);
        return r;
    }

private:
    Eigen::SparseMatrix<double> keep;
};
#define SYMSOLVE_BODY(Name)                        \
    Name() {}                                      \
    template <class D>                             \
    explicit Name(const Eigen::SparseMatrixBase<D> &m) { this->compute(m); }
#define SYMSOLVE_BASE(...) symsolve::Wrap<__VA_ARGS__>
#endif
}  // namespace symsolve

namespace Eigen {
template <class M, class P = DiagonalPreconditioner<double>>
struct SymBiCGSTAB : SYMSOLVE_BASE(BiCGSTAB<M, P>) { SYMSOLVE_BODY(SymBiCGSTAB) };
template <class M, int U = Lower, class P = DiagonalPreconditioner<double>>
struct SymConjugateGradient : SYMSOLVE_BASE(ConjugateGradient<M, U, P>) { SYMSOLVE_BODY(SymConjugateGradient) };
template <class M, int U = Lower, class O = AMDOrdering<int>>
struct SymSimplicialLDLT : SYMSOLVE_BASE(SimplicialLDLT<M, U, O>) { SYMSOLVE_BODY(SymSimplicialLDLT) };
template <class M, int U = Lower, class O = AMDOrdering<int>>
struct SymSimplicialLLT : SYMSOLVE_BASE(SimplicialLLT<M, U, O>) { SYMSOLVE_BODY(SymSimplicialLLT) };
template <class M, class O = COLAMDOrdering<int>>
struct SymSparseLU : SYMSOLVE_BASE(SparseLU<M, O>) { SYMSOLVE_BODY(SymSparseLU) };
}  // namespace Eigen
#define BiCGSTAB SymBiCGSTAB
#define ConjugateGradient SymConjugateGradient
#define SimplicialLDLT SymSimplicialLDLT
#define SimplicialLLT SymSimplicialLLT
#define SparseLU SymSparseLU
