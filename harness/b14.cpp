// B14: when the QP routine reports an optimum, the point is feasible, satisfies the optimality conditions and has the
// reported cost; when it reports infeasibility no point satisfies all constraints.
#include "common.h"
#include <hpp/bezier-com-traj/solver/eiquadprog-fast.hpp>
using namespace tsid::solvers;
typedef Eigen::MatrixXd MX; typedef Eigen::VectorXd VX;
typedef std::vector<double> L_;
// H = L L' and each constraint row is L d with d from the list: with rational |d| (and rational distances between them)
// the Givens rotations of the routine stay rational, so that its path conditions are exact linear inequalities.
struct Case { const char* name; int n, me, mi; L_ L, dE, dI; };
static MX mat(const L_& v, int r, int c) { MX m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = v[i * c + j]; return m; }
static const double S_ = 1.0 / 8388608.0;
static std::vector<Case> cases() {
  std::vector<Case> c; L_ L2 = {2, 0, 1, 3}, L3 = {2, 0, 0, 1, 3, 0, -1, 1, 1}, I3 = {1, 0, 0, 0, 1, 0, 0, 0, 1};
  c.push_back({"unconstrained", 3, 0, 0, L3, {}, {}});
  c.push_back({"interval", 1, 0, 2, {3}, {}, {1, -2}});
  c.push_back({"box2", 2, 0, 3, L2, {}, {1, 0, 0, 1, -1, 0}});
  c.push_back({"given_overdetermined_redundant", 2, 3, 1, {2, 1, 1, 3}, {1, 2, 3, -1, 1, 1}, {1, 0}});
  c.push_back({"general2", 2, 0, 3, L2, {}, {3, 4, -5, 12, 4, -3}});
  c.push_back({"acute2", 2, 0, 3, L2, {}, {3, 4, 4, 3, 1, 0}});
  c.push_back({"equality2", 2, 1, 2, L2, {3, 4}, {1, 0, -4, 3}});
  c.push_back({"full_equality2", 2, 2, 2, L2, {3, 4, 1, 0}, {0, 1, 4, 3}});
  c.push_back({"redundant_equalities", 2, 2, 1, L2, {3, 4, 6, 8}, {1, 0}});
  c.push_back({"given_redundant_equalities", 2, 2, 1, {2, 0, 0, 3}, {1, 2, 2, 4}, {1, 0}});   // Hessian and rows as given
  c.push_back({"parallel_to_equality", 2, 1, 2, L2, {3, 4}, {3, 4, -3, -4}});
  c.push_back({"duplicate_rows", 2, 0, 3, L2, {}, {3, 4, 3, 4, 4, -3}});
  c.push_back({"opposite_rows", 2, 0, 3, L2, {}, {3, 4, -3, -4, 1, 0}});
  c.push_back({"general3", 3, 0, 3, L3, {}, {3, 4, 0, -3, 4, 0, 0, 0, 1}});
  c.push_back({"equality3", 3, 1, 2, L3, {3, 4, 0}, {1, 0, 0, 0, 0, 1}});
  c.push_back({"two_equalities3", 3, 2, 1, L3, {3, 4, 0, 0, 0, 1}, {1, 0, 0}});
  c.push_back({"dependent3", 3, 0, 3, I3, {}, {1, 0, 0, 3, 4, 0, 0, -1, 0}});
  // H = U U' with a pattern for which the sparse factorization reorders the unknowns
  c.push_back({"sparse_arrow4", 4, 1, 2, {2, 1, -1, 1, 0, 2, 0, 0, 0, 0, 3, 0, 0, 0, 0, 1}, {0, 3, 4, 0}, {1, 0, 0, 0, 0, 4, -3, 0}});
  // badly scaled: the second constraint is numerically dependent on the first one when that is active
  double B = 1073741824.0, S = S_; L_ I2 = {1, 0, 0, 1};
  c.push_back({"given_scaled2", 2, 0, 2, I2, {}, {B, 0, 1, S}});
  c.push_back({"given_scaled3", 3, 1, 3, I3, {0, 0, 1}, {B, 0, 0, 1, S, 0, 0, 1, 0}});
  c.push_back({"given_scaled_drop2", 2, 0, 3, I2, {}, {B, 0, 1, S, 0, 1}});
#ifdef THOROUGH
  c.push_back({"box2x4", 2, 0, 4, L2, {}, {1, 0, 0, 1, -1, 0, 0, -1}});
  c.push_back({"two_equalities3x2", 3, 2, 2, L3, {3, 4, 0, 0, 0, 1}, {1, 0, 0, -4, 3, 0}});
  c.push_back({"equality3x3", 3, 1, 3, L3, {3, 4, 0}, {1, 0, 0, 0, 0, 1, 0, 0, -1}});
  c.push_back({"dependent3x4", 3, 0, 4, I3, {}, {1, 0, 0, 3, 4, 0, 0, -1, 0, 0, 0, 1}});
  c.push_back({"box3", 3, 0, 6, L3, {}, {1, 0, 0, 0, 1, 0, 0, 0, 1, -1, 0, 0, 0, -1, 0, 0, 0, -1}});
  c.push_back({"general2x5", 2, 0, 5, L2, {}, {3, 4, -5, 12, 4, -3, -3, -4, 15, -8}});
  c.push_back({"oblique3", 3, 0, 3, L3, {}, {3, 4, 0, 0, 3, 4, 0, 0, 1}});
#endif
  return c;
}
static double rowdot(const MX& m, int i, const VX& x) { double s = 0; for (int j = 0; j < m.cols(); j++) s = s + m(i, j) * x(j); return s; }
void harness_main() {
  std::vector<Case> cs = cases(); const Case k = cs[sym::choice("case", (int)cs.size())]; string n = k.name;
#ifdef MEMORY
  if (n != "interval" && n != "equality2" && n != "redundant_equalities" && n != "given_overdetermined_redundant" && n != "duplicate_rows" && n != "two_equalities3" && n != "given_scaled3") sym::discard();
#endif
  MX L = mat(k.L, k.n, k.n), H = L * L.transpose(), CE = mat(k.dE, k.me, k.n) * L.transpose(), CI = mat(k.dI, k.mi, k.n) * L.transpose(); if (n.find("given") == 0) { H = L; CE = mat(k.dE, k.me, k.n); CI = mat(k.dI, k.mi, k.n); } VX g(k.n), ce(k.me), ci(k.mi), x = VX::Zero(k.n);
  EiquadprogFast qp;
  for (int i = 0; i < k.n; i++) g(i) = sym::var(I("g", i), -4.0, 4.0);
  for (int i = 0; i < k.me; i++) ce(i) = sym::var(I("ce", i), -4.0, 4.0);
  for (int i = 0; i < k.mi; i++) ci(i) = sym::var(I("ci", i), -4.0, 4.0);
  bool scaled = n.find("scaled") != string::npos; if (scaled) { g(0) = (n == "given_scaled_drop2" ? 256 : 4096) + g(0); g(1) = g(1) / 16384; ci(0) = 1073741824.0 * ci(0); ci(1) = ci(0) / 1073741824.0 - S_ / 16384 * (1 + 0.125 * ci(1)); if (n == "given_scaled_drop2") ci(2) = ci(2) / 16384; }
  // the sparse routine, and the dense one with the inverse factor provided
  bool others = n == "interval" || n == "box2" || n == "equality2" || n == "full_equality2" || n == "redundant_equalities" || n == "equality3" || n == "given_scaled2";
  int mode = n.find("sparse") == 0 ? 1 : others ? sym::choice("mode", 3) : 0; EiquadprogFast_status st;
  if (mode == 2) { qp.reset(k.n, k.me, k.mi); qp.m_J = MX::Identity(k.n, k.n); if (n.find("given") == 0) Eigen::LLT<MX>(H).matrixU().solveInPlace(qp.m_J); else L.transpose().triangularView<Eigen::Upper>().solveInPlace(qp.m_J); qp.is_inverse_provided_ = true; }
  if (mode == 1) { EiquadprogFast::SpMat Hs = H.sparseView(); st = qp.solve_quadprog_sparse(Hs, g, CE, ce, CI, ci, x); } else st = qp.solve_quadprog(H, g, CE, ce, CI, ci, x);
  sym::reach(I("mode", mode));
  sym::check(n + ": terminates within the iteration limit", st != EIQUADPROG_FAST_MAX_ITER_REACHED);
  if (st == EIQUADPROG_FAST_OPTIMAL) {
    for (int i = 0; i < k.me; i++) sym::check_eq(n + ": equality " + std::to_string(i), rowdot(CE, i, x), -ce(i));
    for (int i = 0; i < k.mi; i++) sym::check_le(n + ": inequality " + std::to_string(i), -ci(i), rowdot(CI, i, x));
    VX grad(k.n); for (int i = 0; i < k.n; i++) grad(i) = rowdot(H, i, x) + g(i);
    double f = 0; for (int i = 0; i < k.n; i++) f = f + 0.5 * (grad(i) + g(i)) * x(i);
    int q = qp.getActiveSetSize(); const VX& u = qp.getLagrangeMultipliers(); const Eigen::VectorXi& A = qp.getActiveSet();
    sym::check(n + ": active set size", q >= k.me && q <= k.me + k.mi && q <= k.n);
    for (int a = 0; a < q; a++) {
      bool eq = a < k.me; int id = eq ? a : A(a); sym::check(n + ": active set entries", eq || (id >= 0 && id < k.mi));
      for (int i = 0; i < k.n; i++) grad(i) = grad(i) - u(a) * (eq ? CE(id, i) : CI(id, i));
      if (!eq) { sym::check_le(n + ": multiplier sign", 0.0, u(a)); sym::check_eq(n + ": active constraint holds with equality", rowdot(CI, id, x), -ci(id)); }
    }
    for (int i = 0; i < k.n; i++) sym::check_eq(n + ": stationarity " + std::to_string(i), grad(i), 0.0);
    sym::check_eq(n + ": cost", qp.getObjValue(), f);
    sym::reach("optimal_" + n); sym::reach(I("active", q));
  } else {
    // any point that satisfies everything (inequalities with a margin) contradicts the verdict
    sym::reach((st == EIQUADPROG_FAST_REDUNDANT_EQUALITIES ? "redundant_" : "infeasible_") + n);
    if (st == EIQUADPROG_FAST_REDUNDANT_EQUALITIES) {
      if (k.me == 2) sym::reach(std::fabs(ce(1) - 2.0 * ce(0)) > 0.5 ? "inconsistent" : "near_consistent");
      sym::check(n + ": independent equalities are not called redundant", n.find("redundant") != string::npos); return;
    }
    if (scaled) return;   // feasibility itself is beyond the routine's tolerances here
    sym::Rows rows, none(1, sym::Row(k.n + 1, 0.0)); none[0][k.n] = -1.0;   // 0 <= -1
    for (int i = 0; i < k.mi; i++) { sym::Row r; for (int j = 0; j < k.n; j++) r.push_back(-CI(i, j)); r.push_back(ci(i) - 1e-3); rows.push_back(r); }
    for (int i = 0; i < k.me; i++) for (int s = -1; s <= 1; s += 2) { sym::Row r; for (int j = 0; j < k.n; j++) r.push_back(s * CE(i, j)); r.push_back(-s * ce(i)); rows.push_back(r); }
    sym::check_halfspaces(n + ": no point satisfies all constraints", k.n, rows, none);
  }
}
