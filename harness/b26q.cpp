// B26: a QP solver object that is used again answers like a fresh one, whatever it solved before.
#include "common.h"
#include <hpp/bezier-com-traj/solver/eiquadprog-fast.hpp>
using namespace tsid::solvers;
typedef Eigen::MatrixXd MX; typedef Eigen::VectorXd VX;
struct Q { MX H, CE, CI; VX g, ce, ci; };
static Q make(int k) {
  Q q; int n[6] = {3, 1, 2, 2, 3, 2}, me[6] = {0, 0, 1, 2, 1, 0}, mi[6] = {3, 2, 1, 0, 2, 2}; int N = n[k]; q.H = MX::Identity(N, N); q.g = VX::Zero(N); q.CE = MX::Zero(me[k], N); q.ce = VX::Zero(me[k]); q.CI = MX::Zero(mi[k], N); q.ci = VX::Zero(mi[k]);
  for (int i = 0; i < N; i++) { q.H(i, i) = (i + 1) * (i + 1); q.g(i) = 1.0 - 2.0 * i; }
  for (int i = 0; i < me[k]; i++) { q.CE(i, i % N) = 1.0; if (k == 3) q.CE(i, 0) = 1.0 + i; q.ce(i) = 0.5 + i; }   // 3: dependent rows
  if (k == 3) { q.CE.col(1).setZero(); }
  for (int i = 0; i < mi[k]; i++) { q.CI(i, (N - 1 + i) % N) = i % 2 ? -1.0 : 1.0; q.ci(i) = -0.25 * i; }
  if (k == 5) { q.CI.setZero(); q.CI(0, 0) = 1.0; q.CI(1, 0) = -1.0; q.ci(0) = -2.0; q.ci(1) = 1.0; }   // infeasible: x >= 2, x <= 1
  return q;
}
struct Ans { int st; VX x, u; Eigen::VectorXi A; double f; };
static Ans run(EiquadprogFast& s, const Q& q) {
  Ans a; a.x = VX::Zero(q.g.size()); a.st = s.solve_quadprog(q.H, q.g, q.CE, q.ce, q.CI, q.ci, a.x); a.f = 0;
  if (a.st == EIQUADPROG_FAST_OPTIMAL) { a.f = s.getObjValue(); int n = s.getActiveSetSize(); a.A = s.getActiveSet().head(n); a.u = s.getLagrangeMultipliers().head(n); } return a;
}
void harness_main() {
  int first = sym::choice("first", 6), second = sym::choice("second", 6), third = (first + second) % 2; Q q = make(second), p = make(first);
  for (long i = 0; i < q.g.size() && i < 2; i++) q.g(i) = sym::var(I("g", i), -4, 4); for (long i = 0; i < q.ci.size() && i < 1; i++) q.ci(i) = sym::var(I("ci", i), -4, 4);
  EiquadprogFast used, fresh; run(used, p); if (third) run(used, make((first + 1) % 6));
  Ans a = run(used, q), b = run(fresh, q); string n = "problem " + std::to_string(second) + " after " + std::to_string(first);
  sym::check(n + ": same verdict", a.st == b.st); if (a.st == EIQUADPROG_FAST_OPTIMAL) { check_vec(n + ": same point", a.x, b.x); sym::check_eq(n + ": same objective", a.f, b.f); sym::check(n + ": same active set", a.A == b.A); check_vec(n + ": same multipliers", a.u, b.u); }
  sym::reach(I("reuse", second)); sym::reach(I("status", a.st));
}
