// B04: computeWwaypoints are control points of w = [c'' ; c x (c'' - g)], as functions of the free point.
#include "common.h"
void harness_main() {
  std::vector<FlagSet> fs = com_flags(); fs.push_back(jerk_flags()[0]);
  const FlagSet f = fs[sym::choice("flag", (int)fs.size())];
  ProblemData pd; pd.constraints_.flag_ = f.flag; sym_state(pd, f);
  pd.contacts_.push_back(sym_phase(0, 0, false));
  double T = sym::var("T", 0.125, 8.0);
  bezier_wp_t::t_point_t w = computeWwaypoints(pd, T);
  sym::check(string(f.name) + ": non-empty", w.size() > 0);
  int d = (int)w.size() - 1; V3 g(0, 0, -9.81); Matrix3 G = skew(g);
  Affs c = ref_points(pd, f, T), ddc = ref_derive(ref_derive(c, T), T);
  double u = sym::var("u", 0.0, 1.0);
  Aff cu = ref_eval(c, u), au = ref_eval(ddc, u);
  MatrixXX F = MatrixXX::Zero(6, 3); VectorX S = VectorX::Zero(6);
  for (int i = 0; i <= d; i++) {
    sym::check(string(f.name) + ": sizes", w[i].first.rows() == 6 && w[i].first.cols() == 3 && w[i].second.size() == 6);
    double b = binom(d, i) * ipow(u, i) * ipow(1.0 - u, d - i); F += b * w[i].first; S += b * w[i].second;
  }
  Matrix3 lin = Matrix3::Identity() * au.k[0];
  Matrix3 Sc, Sa;  // skew of c and ddc constants, written out independently of the code under test
  Sc << 0, -cu.c[2], cu.c[1], cu.c[2], 0, -cu.c[0], -cu.c[1], cu.c[0], 0;
  Sa << 0, -au.c[2], au.c[1], au.c[2], 0, -au.c[0], -au.c[1], au.c[0], 0;
  G << 0, 9.81, 0, -9.81, 0, 0, 0, 0, 0;
  Matrix3 ang = Sc * au.k[0] - Sa * cu.k[0] + G * cu.k[0];
  V3 sl = au.c, sa = Sc * au.c + G * cu.c;
  for (int i = 0; i < 3; i++) {
    sym::check_eq(string(f.name) + ": linear constant", S(i), sl(i)); sym::check_eq(string(f.name) + ": angular constant", S(3 + i), sa(i));
    for (int j = 0; j < 3; j++) { sym::check_eq(string(f.name) + ": linear matrix", F(i, j), lin(i, j)); sym::check_eq(string(f.name) + ": angular matrix", F(3 + i, j), ang(i, j)); }
  }
  sym::reach(string("w_") + f.name);
}
