// B20: what solveEndEffector returns, whatever the optimiser answered.
#include "ee.h"
void harness_main() {
  sym::generic_eq(true);
  std::vector<FlagSet> fs = jerk_flags(); const FlagSet f = fs[sym::choice("flag", (int)fs.size())]; int dim = 3 * f.nf;
  ProblemData pd; pd.constraints_.flag_ = f.flag; sym_state(pd, f); double T = sym::var("T", 0.125, 8.0);
  bool ok = sym::choice("solved", 2) == 0; if (ok) answer_success(dim); else answer_failure();
  RefPath path; path.a = pd.c0_; path.b = pd.c1_ - pd.c0_; path.c = V3::Zero();
  int w = sym::choice("weight", 2); ResultDataCOMTraj r = solveEndEffector(pd, path, T, w ? sym::var("w", 0.05, 1.0) : 0.0);
  Problem& q = captured(); string n = f.name;
  sym::check(n + ": one problem over the free points", q.calls == 1 && q.A.cols() == dim && q.init.size() == dim && q.H.rows() == dim && q.g.size() == dim);
  for (int i = 0; i < dim; i++) sym::check(n + ": initial guess is initialised", !sym::is_poison(q.init(i)));
  sym::check(n + ": success mirrors the optimiser", r.success_ == ok);
  if (!ok) { sym::reach("failure"); return; }
  check_vec(n + ": returned x", r.x, answer().x);
  sym::check_eq(n + ": start time", r.c_of_t_.min(), 0.0); sym::check_eq(n + ": end time", r.c_of_t_.max(), T);
  const char* dn[4] = {"position", "velocity", "acceleration", "jerk"}; V3 s[4] = {pd.c0_, pd.dc0_, pd.ddc0_, pd.j0_}, e[4] = {pd.c1_, pd.dc1_, pd.ddc1_, pd.j1_};
  for (int k = 0; k < 4; k++) { check_vec(n + ": initial " + dn[k], r.c_of_t_.derivate(0., k), s[k]); check_vec(n + ": final " + dn[k], r.c_of_t_.derivate(T, k), e[k]); }
  // the free control points are the optimiser's answer, in order
  sym::check(n + ": number of control points", (int)r.c_of_t_.waypoints().size() == f.npts()); Affs ref = ref_points(pd, f, T);
  for (int i = 0; i < f.npts(); i++) { V3 p = ref[i].c; for (int k = 0; k < f.nf; k++) p += ref[i].k[k] * V3(answer().x.segment<3>(3 * k)); check_vec(n + ": control point " + std::to_string(i), r.c_of_t_.waypoints()[i], p); }
  sym::reach("ee_" + n); sym::reach(w ? "weighted" : "smooth");
}
