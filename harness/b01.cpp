// B01: the trajectory returned by computeCOMTraj / computeCOMTrajFixedSize satisfies the requested
// boundary conditions exactly, whatever the optimiser answered.
#include "capture.h"
static void is(const string& w, const V3& a, const V3& b) { check_vec(w, a, b); }
void harness_main() {
  sym::generic_eq(true);
  std::vector<FlagSet> fs = com_flags(); fs.push_back(jerk_flags()[0]);
  const FlagSet f = fs[sym::choice("flag", (int)fs.size())];
  int api = sym::choice("api", 3);   // 0: fixed size, 1: discretised, 2: continuous
  int nph = 1 + sym::choice("phases", 3);
  ProblemData pd; pd.constraints_.flag_ = f.flag; sym_state(pd, f); pd.costFunction_ = DISTANCE_TRAVELED;
  // the constraint rows are studied by B06-B08: here the cones and the kinematic polytopes are empty
  // in the fixed size and discretised calls; the continuous call always adds acceleration rows
  for (int i = 0; i < nph; i++) {
    StubContact s; s.mass = 1.0; s.H = Eigen::MatrixXd::Zero(0, 6); s.h = Eigen::VectorXd::Zero(0); s.G = Eigen::MatrixXd::Zero(6, 1);
    ContactData cd(make_stub_contact(I("phase", i), s)); cd.Kin_ = MatrixX3::Zero(0, 3); cd.kin_ = VectorX::Zero(0); pd.contacts_.push_back(cd);
  }
  double T1 = sym::var("T0", 0.5, 4.0); VectorX Ts(nph); Ts(0) = T1; double T = T1;
  for (int i = 1; i < nph; i++) { Ts(i) = sym::var(I("T", i), 0.5, 4.0); T = T + Ts(i); }
  bool ok = sym::choice("solved", 2) == 0; if (ok) answer_success(3); else answer_failure();
  ResultDataCOMTraj r;
  if (api == 0) r = computeCOMTrajFixedSize(pd, Ts, 3);
  else if (api == 1) { if (nph == 1) { Ts(0) = 1.0; T = 1.0; } else if (nph == 2) { Ts << 0.5, 1.0; T = 1.5; } else { Ts << 0.5, 1.0, 0.75; T = 2.25; } r = computeCOMTraj(pd, Ts, 0.25); }
  else r = computeCOMTraj(pd, Ts, -1);
  string n = f.name;
  sym::check(n + ": the optimiser is called exactly once", captured().calls == 1);
  sym::check(n + ": success mirrors the optimiser", r.success_ == ok);
  if (!ok) { sym::reach("failure_" + n); return; }
  V3 x = answer().x.head<3>();
  check_vec(n + ": returned x", r.x, x); sym::check_eq(n + ": returned cost", r.cost_, answer().cost_);
  sym::check_eq(n + ": start time", r.c_of_t_.min(), 0.0); sym::check_eq(n + ": end time", r.c_of_t_.max(), T);
  V3 z = V3::Zero(), e0 = r.c_of_t_.derivate(T, 0), e1 = r.c_of_t_.derivate(T, 1), e2 = r.c_of_t_.derivate(T, 2);
  is(n + ": reported terminal velocity", r.dc1_, e1); is(n + ": reported terminal acceleration", r.ddc1_, e2);
  if (f.flag & INIT_POS) is(n + ": initial position", r.c_of_t_.derivate(0., 0), pd.c0_);
  if (f.flag & INIT_VEL) is(n + ": initial velocity", r.c_of_t_.derivate(0., 1), pd.dc0_);
  if (f.flag & INIT_ACC) is(n + ": initial acceleration", r.c_of_t_.derivate(0., 2), pd.ddc0_);
  if (f.flag & INIT_JERK) is(n + ": initial jerk", r.c_of_t_.derivate(0., 3), pd.j0_);
  if (f.flag & END_POS) is(n + ": final position", e0, pd.c1_);
  if (f.flag & END_VEL) is(n + ": final velocity", e1, f.stop ? z : V3(pd.dc1_));
  if (f.flag & END_ACC) is(n + ": final acceleration", e2, pd.ddc1_);
  if (f.flag & END_JERK) is(n + ": final jerk", r.c_of_t_.derivate(T, 3), pd.j1_);
  // the free control point really is the optimised variable: c(t) at a generic time
  double u = sym::var("u", 0.0, 1.0); Affs ref = ref_points(pd, f, T); Aff a = ref_eval(ref, u);
  V3 c = r.c_of_t_(u * T); is(n + ": position at any time", c, a.k[0] * x + a.c);
  V3 l = r.dL_of_t_(u * T); is(n + ": angular momentum rate", l, z);
  sym::reach("traj_" + n); sym::reach(api == 0 ? "fixed" : api == 1 ? "discretised" : "continuous");
}
