// B23: the constant waypoints (numeric and symbolic) are the control points the boundary states impose.
#include "common.h"
#include "ee.h"
// Degree 4 curves with an imposed start (position, velocity, acceleration, zero jerk, then the final position) or an imposed arrival.
static void predefined() {
  const bool goal = sym::choice("goal", 2);
  ProblemData pd; FlagSet f = jerk_flags()[0]; double T = sym::var("T", 0.125, 8.0); sym_state(pd, f);
  std::vector<bezier_t::point_t> p = goal ? computeConstantWaypointsGoalPredef(pd, T) : computeConstantWaypointsInitPredef(pd, T);
  sym::check("predefined: number of points", p.size() >= 5);
  Affs a(p.size()); for (size_t i = 0; i < p.size(); i++) a[i].c = p[i];
  string w = goal ? "predefined arrival: " : "predefined start: ";
  const double t = goal ? 1 : 0;
  check_vec(w + "initial position", ref_eval(a, 0).c, pd.c0_); check_vec(w + "final position", ref_eval(a, 1).c, pd.c1_);
  for (int d = 1; d <= 3; d++) {
    a = ref_derive(a, T);
    V3 want = d == 3 ? V3(V3::Zero()) : goal ? (d == 1 ? V3(pd.dc1_) : V3(pd.ddc1_)) : (d == 1 ? V3(pd.dc0_) : V3(pd.ddc0_));
    check_vec(w + "derivative " + std::to_string(d), ref_eval(a, t).c, want);
  }
  sym::reach(goal ? "predef_goal" : "predef_init");
}
void harness_main() {
  sym::generic_eq(true);
  if (sym::choice("predefined", 2)) return predefined();
  std::vector<FlagSet> fs = com_flags(), js = jerk_flags(); fs.insert(fs.end(), js.begin(), js.end());
  const FlagSet f = fs[sym::choice("flag", (int)fs.size())];
  ProblemData pd; pd.constraints_.flag_ = f.flag; double T = sym::var("T", 0.125, 8.0);
  int sc = sym::choice("state", 5);   // 0: generic states, 1: at rest at the origin initially, 2: finally, 3: both, 4: partly zero vectors
  sym_state(pd, f);
  if (sc == 1 || sc == 3) { pd.c0_ = V3::Zero(); pd.dc0_ = V3::Zero(); pd.ddc0_ = V3::Zero(); pd.j0_ = V3::Zero(); }
  if (sc == 2 || sc == 3) { pd.c1_ = V3::Zero(); pd.dc1_ = V3::Zero(); pd.ddc1_ = V3::Zero(); pd.j1_ = V3::Zero(); }
  if (sc == 4) { pd.dc0_ = V3::Zero(); pd.dc1_ = V3::Zero(); pd.c0_[2] = 0; pd.c1_[0] = 0; pd.c1_[1] = 0; pd.ddc1_[1] = 0; }
  Affs r = ref_points(pd, f, T);
  std::vector<point_t> p = computeConstantWaypoints(pd, T);
  sym::check(string(f.name) + ": number of points", (int)p.size() == f.npts());
  for (int i = 0; i < f.npts(); i++) check_vec(string(f.name) + ": point " + std::to_string(i), p[i], r[i].c);
  sym::reach(string("num_") + f.name); sym::reach(I("state", sc));
  bezier_wp_t::t_point_t s = computeConstantWaypointsSymbolic(pd, T); int nv = 3 * f.nf;
  sym::check(string(f.name) + ": number of symbolic points", (int)s.size() == f.npts());
  for (int i = 0; i < f.npts(); i++) {
    string w = string(f.name) + ": symbolic point " + std::to_string(i);
    sym::check(w + ": sizes", s[i].first.rows() == 3 && s[i].first.cols() == nv && s[i].second.size() == 3);
    Eigen::MatrixXd M = Eigen::MatrixXd::Zero(3, nv); for (int k = 0; k < f.nf; k++) for (int a = 0; a < 3; a++) M(a, 3 * k + a) = r[i].k[k];
    check_mat(w + " coefficients", s[i].first, M); check_vec(w + " constant", s[i].second, r[i].c);
  }
  sym::reach(string("sym_") + f.name);
}
