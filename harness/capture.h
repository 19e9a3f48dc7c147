// Stand-in for the back end QP/LP solver: records the problem it is handed and answers with an
// arbitrary (symbolic) result.
#pragma once
#include "common.h"
struct Problem {
  Eigen::MatrixXd A, D, H; Eigen::VectorXd b, d, g, init, lo, hi; solvers::SolverType solver; int calls = 0;
};
inline Problem& captured() { static Problem p; return p; }
inline solvers::ResultData& answer() { static solvers::ResultData r; return r; }
inline void answer_failure() { answer().success_ = false; answer().cost_ = sym::var("cost", -10, 10); }
inline void answer_success(int dim, double B = 8.0) {
  answer().success_ = true; answer().cost_ = sym::var("cost", -10, 10);
  answer().x.resize(dim); for (int i = 0; i < dim; i++) answer().x(i) = sym::var(I("x", i), -B, B);
}
namespace solvers {
ResultData solve(const MatrixXd& A, const VectorXd& b, const MatrixXd& D, const VectorXd& d, const MatrixXd& Hess, const VectorXd& g,
                 const VectorXd& initGuess, solvers::Cref_vectorX minBounds, solvers::Cref_vectorX maxBounds, const SolverType solver) {
  Problem& p = captured(); p.A = A; p.b = b; p.D = D; p.d = d; p.H = Hess; p.g = g; p.init = initGuess; p.lo = minBounds; p.hi = maxBounds; p.solver = solver; p.calls++;
  ResultData r = answer(); if (r.x.size() == 0) r.x = initGuess; else if (r.success_ && r.x.size() < A.cols()) { VectorXd x = VectorXd::Zero(A.cols()); x.head(r.x.size()) = r.x; r.x = x; }
  return r;
}
}
