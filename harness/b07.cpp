// B07: continuous formulation, double description: the QP constrains exactly the control points of the
// restriction of c, c'' and w to each contact phase (so the constraints hold along the whole curve).
#include "split.h"
void harness_main() {
  sym::generic_eq(true);
  std::vector<FlagSet> fs = com_flags(); int fi = sym::choice("flag", (int)fs.size()); const FlagSet f = fs[fi];
  int split = sym::choice("split", deep ? 7 : f.deg() <= 3 ? 6 : 4); static const int NPH[7] = {1, 2, 2, 3, 2, 4, 3}; /* 4, 6: switches at symbolic instants */ int nph = NPH[split]; int mode = sym::choice("mode", 3);   // 0: no acceleration bound, 1: with it, 2: with it and the first (last) state at rest at the origin
  int zero = mode < 2 ? 0 : 1 + split % 2;   // 1: starts at rest at the origin, 2: ends there
  if (zero == 2 && f.ne == 0) zero = 1;
  ProblemData pd; pd.constraints_.flag_ = f.flag; sym_state(pd, f); pd.costFunction_ = DISTANCE_TRAVELED; V3 z = V3::Zero();
  if (zero == 1) { pd.c0_ = z; pd.dc0_ = z; pd.ddc0_ = z; } if (zero == 2) { pd.c1_ = z; pd.dc1_ = z; pd.ddc1_ = z; }
  bool acc = mode > 0; pd.constraints_.constraintAcceleration_ = acc; pd.constraints_.maxAcceleration_ = sym::var("amax", 0.1, 20.0);
  double margin = sym::var("reduce_h", 0.001, 0.5); pd.constraints_.reduce_h_ = margin;
  std::vector<Eigen::MatrixXd> H;
  static const int ROWS[7][4] = {{2}, {1, 2}, {2, 1}, {1, 1, 2}, {1, 1}, {1, 2, 0, 1}, {0, 1, 1}}; static const double ALT[7][2] = {{0.375, 0.625}, {0.25, 0.75}, {0.0625, 0.5}, {0.5, 0.875}, {0.125, 0.75}, {0.75, 0.8125}, {0.3125, 0.9375}};
  static const int KIN[7][4] = {{2}, {0, 2}, {2, 1}, {1, 0, 1}, {1, 2}, {1, 0, 2, 1}, {1, 1, 0}};
  for (int i = 0; i < nph; i++) { pd.contacts_.push_back(cone_phase(i, ROWS[split][i], KIN[split][i])); H.push_back(cone(i, ROWS[split][i])); }
  VectorX Ts(nph); double T = 4.0, used = 0; std::vector<double> cut(nph + 1, 0.0); cut[nph] = 1.0;
  if (split == 4) cut[1] = sym::var("u", 0.125, 0.875);
  else if (split == 6) { cut[1] = sym::var("u", 0.125, 0.4375); cut[2] = sym::var("v", 0.5625, 0.875); }
  else { T = sym::var("T", 1.0, 6.0); const double* a = ALT[(fi + mode) % 7]; if (split == 1) cut[1] = a[0]; if (split == 2) cut[1] = a[1]; if (split == 3) { cut[1] = a[0]; cut[2] = a[1]; } if (split == 5) { cut[1] = 0.125; cut[2] = 0.5; cut[3] = 0.6875; } }
  for (int i = 0; i + 1 < nph; i++) { Ts(i) = (cut[i + 1] - cut[i]) * T; used = used + Ts(i); } Ts(nph - 1) = T - used;
  answer_failure(); computeCOMTraj(pd, Ts, -1);
  Problem& q = captured(); string n = string(f.name) + " continuous";
  sym::check(n + ": one problem of three unknowns", q.calls == 1 && q.A.cols() == 3 && q.b.size() == q.A.rows());
  sym::check(n + ": no equality constraints", q.D.rows() == 0 && q.d.size() == 0);
  Affs c = ref_points(pd, f, T), dd = ref_derive(ref_derive(c, T), T);
  int dw = (int)computeWwaypoints(pd, T).size() - 1; sym::Rows must, lim;
  for (int i = 0; i < nph; i++) {
    Affs cs = restrict_to(c, cut[i], cut[i + 1]), as = restrict_to(dd, cut[i], cut[i + 1]);
    for (size_t k = 0; k < cs.size(); k++) kin_rows(must, pd.contacts_[i], cs[k]);
    std::vector<W> w = reduce(wrench_points(cs, as), dw); for (size_t k = 0; k < w.size(); k++) stab_rows(must, H[i], margin, w[k].F, w[k].S);
    for (size_t k = 0; k < as.size(); k++) acc_rows(lim, pd.constraints_.maxAcceleration_, as[k]);
  }
  if (acc) must.insert(must.end(), lim.begin(), lim.end());
  sym::check_halfspaces(n + ": feasible set", 3, to_rows(q.A, q.b), must);
  sym::reach(string("cont_") + f.name); sym::reach(I("split", split)); sym::reach(zero == 1 ? "zero_init" : zero == 2 ? "zero_final" : "generic"); sym::reach(acc ? "acc" : "noacc");
}
