// B12: the QP adapter.
#include "common.h"
#include <Eigen/Sparse>
#define private public
#include <hpp/bezier-com-traj/solver/eiquadprog-fast.hpp>
#undef private
struct Seen { Eigen::MatrixXd H, CE, CI; Eigen::VectorXd g, ce, ci; int calls = 0, status = 0; double cost = 0; Eigen::VectorXd x; };
static Seen& seen() { static Seen s; return s; }
namespace tsid { namespace solvers {
EiquadprogFast_status EiquadprogFast::solve_quadprog(const MatrixXd& H_, const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0, const MatrixXd& CI, const VectorXd& ci0, VectorXd& x) {
  Seen& s = seen(); s.H = H_; s.g = g0; s.CE = CE; s.ce = ce0; s.CI = CI; s.ci = ci0; s.calls++; f_value = s.cost; x = s.x; return (EiquadprogFast_status)s.status;
}
} }
static Eigen::MatrixXd symmat(const string& n, int r, int c) { Eigen::MatrixXd m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = sym::var(n + std::to_string(i) + std::to_string(j), -3, 3); return m; }
static Eigen::VectorXd symv(const string& n, int r) { Eigen::VectorXd m(r); for (int i = 0; i < r; i++) m(i) = sym::var(I(n, i), -3, 3); return m; }
void harness_main() {
  sym::generic_eq(true);
  int n = 1 + sym::choice("n", 4), mi = sym::choice("mi", 3), me = sym::choice("me", 3); bool big = n == 4; if (big) { n = 6; mi = 2 * mi + 1; } int lo = sym::choice("lower", 2), hi = sym::choice("upper", 2);
  Eigen::MatrixXd A = symmat("A", mi, n), D = symmat("D", me, n), H = symmat("H", n, n); Eigen::VectorXd b = symv("b", mi), d = symv("d", me), g = symv("g", n), init = symv("i", n), l = symv("lo", lo ? n : 0), u = symv("hi", hi ? n : 0);
  Seen& s = seen(); s.status = big ? 0 : sym::choice("status", 5); s.cost = sym::var("cost", -9, 9); s.x = symv("x", n);
  int via = n == 2 && s.status == 0 ? sym::choice("via", 4) : 0;   // the adapter itself or one of the forms the library offers on top of it
  if (via == 3) { bool refused = false; try { solvers::solve(A, b, D, d, H, g, init, l, u, (solvers::SolverType)9); } catch (const std::exception&) { refused = true; } sym::check("unknown solver is refused", refused && s.calls == 0); sym::reach("unknown"); return; }
  if (via == 2) { D.resize(0, n); d.resize(0); l.resize(0); u.resize(0); lo = hi = 0; }
  typedef std::pair<MatrixXX, VectorX> P;
  solvers::ResultData r = via == 0 ? solvers::solve(A, b, D, d, H, g, init, l, u, solvers::SOLVER_QUADPROG) : via == 1 ? bezier_com_traj::solve(P(A, b), P(D, d), P(H, g), l, u, init) : bezier_com_traj::solve(P(A, b), P(H, g), init);
  sym::reach(I("via", via));
  sym::check("the QP routine is called once", s.calls == 1);
  sym::check("success iff optimal", r.success_ == (s.status == 0));
  if (r.success_) { check_vec("solution", r.x, s.x); sym::check_eq("cost", r.cost_, s.cost); }
  check_mat("hessian", s.H, H); check_vec("linear cost", s.g, g);
  sym::check("sizes", s.CE.rows() == s.ce.size() && s.CI.rows() == s.ci.size() && (s.CE.rows() == 0 || s.CE.cols() == n) && (s.CI.rows() == 0 || s.CI.cols() == n));
  sym::Rows ge = to_rows(s.CE, -s.ce), we = to_rows(D, d); sym::check_equalities("equalities", n, ge, we);
  sym::Rows gi = to_rows(-s.CI, s.ci), wi = to_rows(A, b);
  for (int i = 0; i < n; i++) { sym::Row w(n + 1, 0.0); if (lo) { w[i] = -1.0; w[n] = -l(i); wi.push_back(w); } if (hi) { w[i] = 1.0; w[n] = u(i); wi.push_back(w); } }
  sym::check_halfspaces("inequalities", n, gi, wi);
  if (big) sym::reach("six_variables"); sym::reach(s.status == 0 ? "optimal" : "not_optimal"); sym::reach(lo && hi ? "both" : lo ? "lower" : hi ? "upper" : "unbounded");
}
