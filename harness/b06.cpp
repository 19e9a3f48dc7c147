// B06: the QP of the discretised COM problem (computeCOMTraj with a time step, computeCOMTrajFixedSize)
// holds exactly the cone, kinematic and acceleration constraints at every instant of the grid.
#include "rows.h"
void harness_main() {
  sym::generic_eq(true);
  std::vector<FlagSet> fs = com_flags(); int fi = sym::choice("flag", (int)fs.size()); const FlagSet f = fs[fi];
  int api = sym::choice("api", 2), nph = 1 + sym::choice("phases", api ? 3 : deep ? 7 : f.deg() <= 4 ? 5 : 4); bool sw = false;
  if (nph == 5) { nph = 2; sw = true; } else if (nph > 5) nph--; if (nph == 6) { nph = 3; sw = true; }   // sw: phases switch at symbolic instants
  ProblemData pd; pd.constraints_.flag_ = f.flag; sym_state(pd, f); pd.costFunction_ = DISTANCE_TRAVELED;
  bool acc = sym::choice("acc", 2) == 1; pd.constraints_.constraintAcceleration_ = acc; pd.constraints_.maxAcceleration_ = sym::var("amax", 0.1, 20.0);
  bool red = sym::choice("margin", 2) == 1; double margin = red ? sym::var("reduce_h", 0.001, 0.5) : 0.0; pd.constraints_.reduce_h_ = margin;
  std::vector<Eigen::MatrixXd> H;
  static const int ROWS[4][3] = {{1, 2, 1}, {1, 1, 1}, {1, 1, 2}, {2, 1, 1}}; const int* rows = ROWS[nph < 3 ? api : 2 + (red ? 1 : 0)];
  static const int KIN[4][3] = {{1, 0, 2}, {0, 2, 1}, {2, 1, 0}, {1, 1, 1}}; const int* kin = KIN[2 * acc + red]; int pts = 1 + (fi + acc) % 3;
  for (int i = 0; i < nph; i++) { pd.contacts_.push_back(cone_phase(i, rows[i % 3], kin[i % 3])); H.push_back(cone(i, rows[i % 3])); }
  // phase durations and the expected grid (instants as fractions of T, with the phases constraining them)
  VectorX Ts(nph); double T; std::vector<std::pair<double, std::vector<int>>> grid;
  if (api == 0) {
    static const double CUT[7][4] = {{0.375, 0.625, 0.75, 0.9375}, {0.25, 0.75, 0.875, 0.9375}, {0.0625, 0.5, 0.5625, 0.75}, {0.5, 0.875, 0.9375, 0.96875}, {0.125, 0.25, 0.375, 0.5}, {0.75, 0.8125, 0.875, 0.9375}, {0.3125, 0.5, 0.625, 0.875}};
    double cut[6] = {0.0}; for (int i = 1; i < nph; i++) cut[i] = CUT[(fi + acc) % 7][i - 1]; cut[nph] = 1.0; T = 4.0;
    if (sw) { cut[1] = sym::var("u", 0.125, nph == 2 ? 0.875 : 0.4375); if (nph == 3) cut[2] = sym::var("v", 0.5625, 0.875); } if (!sw || f.deg() <= 3) T = sym::var("T", 1.0, 6.0);
    double used = 0; for (int i = 0; i + 1 < nph; i++) { Ts(i) = (cut[i + 1] - cut[i]) * T; used = used + Ts(i); } Ts(nph - 1) = T - used;
    grid.push_back({0.0, std::vector<int>(1, 0)});
    for (int i = 0; i < nph; i++) for (int j = 1; j <= pts; j++) {
      std::vector<int> ph(1, i); if (j == pts && i + 1 < nph) ph.push_back(i + 1);
      grid.push_back({cut[i] + (cut[i + 1] - cut[i]) * j / pts, ph});
    }
  } else {
    double dur[3] = {0.8, 0.75, 0.7}, at[3][3] = {{0.3, 0.6, 0.8}, {1.1, 1.4, 1.55}, {1.85, 2.15, 2.25}}; T = nph == 1 ? 0.8 : nph == 2 ? 1.55 : 2.25;
    grid.push_back({0.0, std::vector<int>(1, 0)});
    for (int i = 0; i < nph; i++) { Ts(i) = dur[i]; for (int j = 0; j < 3; j++) { std::vector<int> ph(1, i); if (j == 2 && i + 1 < nph) ph.push_back(i + 1); grid.push_back({at[i][j] / T, ph}); } }
  }
  answer_failure();
  if (api == 0) computeCOMTrajFixedSize(pd, Ts, pts); else computeCOMTraj(pd, Ts, 0.3);
  Problem& q = captured(); string n = string(f.name) + (api == 0 ? " fixed size" : " time step");
  sym::check(n + ": one problem of three unknowns", q.calls == 1 && q.A.cols() == 3 && q.b.size() == q.A.rows());
  sym::check(n + ": no equality constraints", q.D.rows() == 0 && q.d.size() == 0);
  sym::check(n + ": no variable bounds", q.lo.size() == 0 && q.hi.size() == 0);
  Affs c = ref_points(pd, f, T), dd = ref_derive(ref_derive(c, T), T); sym::Rows want;
  for (size_t k = 0; k < grid.size(); k++) {
    Aff cu = ref_eval(c, grid[k].first), au = ref_eval(dd, grid[k].first); MatrixXX F; VectorX S; ref_wrench(cu, au, F, S);
    for (size_t p = 0; p < grid[k].second.size(); p++) { int ph = grid[k].second[p]; stab_rows(want, H[ph], margin, F, S); kin_rows(want, pd.contacts_[ph], cu); }
    if (acc) acc_rows(want, pd.constraints_.maxAcceleration_, au);
  }
  sym::check_halfspaces(n + ": feasible set", 3, to_rows(q.A, q.b), want);
  sym::reach(string("rows_") + f.name); sym::reach(api == 0 ? "fixed" : "step"); sym::reach(I("phases", nph)); if (sw) sym::reach("switch"); sym::reach(acc ? "acc" : "noacc"); if (api == 0) sym::reach(I("points", pts));
}
