// B15: what solve0step returns, whatever the optimiser answered.
#include "rows.h"
void harness_main() {
  sym::generic_eq(true);
  ProblemData pd; sym_state(pd); pd.useAngularMomentum_ = sym::choice("momentum", 2) == 1; bool am = pd.useAngularMomentum_; int dim = am ? 6 : 3;
  pd.contacts_.push_back(cone_phase(0, 1, true)); pd.contacts_[0].Ang_ = MatrixX3::Zero(0, 3); pd.contacts_[0].ang_ = VectorX::Zero(0);
  bool ok = sym::choice("solved", 2) == 0; if (ok) answer_success(dim); else answer_failure();
  double T = sym::var("T", 0.125, 6.0); int disc = sym::choice("discretised", 2); std::vector<double> Ts(1, T);
  ResultDataCOMTraj r = solve0step(pd, Ts, disc ? T / 2.5 : -1);
  Problem& q = captured(); string n = am ? "with momentum" : "without momentum";
  sym::check(n + ": optimiser called once with the right number of unknowns", q.calls == 1 && q.A.cols() == dim && q.init.size() == dim);
  sym::check(n + ": no equalities, no bounds", q.D.rows() == 0 && q.lo.size() == 0 && q.hi.size() == 0);
  for (int i = 0; i < dim; i++) sym::check(n + ": initial guess is initialised", !sym::is_poison(q.init(i)));
  sym::check(n + ": success mirrors the optimiser", r.success_ == ok);
  if (!ok) { sym::reach("failure"); return; }
  V3 x = answer().x.head<3>(), L = am ? V3(answer().x.tail<3>()) : V3::Zero(), z = V3::Zero();
  check_vec(n + ": returned x", r.x, answer().x);
  sym::check_eq(n + ": start time", r.c_of_t_.min(), 0.0); sym::check_eq(n + ": end time", r.c_of_t_.max(), T);
  check_vec(n + ": initial position", r.c_of_t_.derivate(0., 0), pd.c0_); check_vec(n + ": initial velocity", r.c_of_t_.derivate(0., 1), pd.dc0_);
  check_vec(n + ": final position", r.c_of_t_.derivate(T, 0), x); check_vec(n + ": final velocity", r.c_of_t_.derivate(T, 1), z);
  Affs c(4, Aff(1)); c[0].c = pd.c0_; c[1].c = pd.c0_ + (T / 3.0) * pd.dc0_; c[2].k[0] = c[3].k[0] = 1.0;
  double u = sym::var("u", 0.0, 1.0); Aff a = ref_eval(c, u); check_vec(n + ": position at any time", r.c_of_t_(u * T), a.k[0] * x + a.c);
  sym::check_eq(n + ": momentum rate start time", r.dL_of_t_.min(), 0.0); sym::check_eq(n + ": momentum rate end time", r.dL_of_t_.max(), T);
  V3 l0 = pd.l0_, dl = r.dL_of_t_(u * T), w = z;
  if (am) { Affs l(4, Aff(1)); l[0].c = l0; l[1].c = L; w = ref_eval(ref_derive(l, T), u).c; }
  check_vec(n + ": momentum rate", dl, w);
  if (am) { double k = 0; for (int i = 0; i < 3; i++) k = k + 1.8 * l0[i] * l0[i] - 1.8 * l0[i] * L[i] + 1.2 * L[i] * L[i]; sym::check_eq(n + ": cost", r.cost_, k); }
  else { double d = 0; for (int i = 0; i < 3; i++) d = d + (pd.c0_[i] - x[i]) * (pd.c0_[i] - x[i]); sym::check_eq(n + ": squared cost", r.cost_ * r.cost_, d); sym::check_le(n + ": cost sign", 0.0, r.cost_); }
  sym::reach(am ? "momentum" : "plain"); sym::reach(disc ? "discretised" : "continuous");
}
