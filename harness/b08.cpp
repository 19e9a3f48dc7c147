// B08: continuous formulation, contact forces: every control point of the wrench curve of each phase is
// produced by its own non-negative force multipliers; a control point shared by two phases appears once.
#include "split.h"
void harness_main() {
  sym::generic_eq(true);
  std::vector<FlagSet> fs = com_flags(); int fi = sym::choice("flag", (int)fs.size()); const FlagSet f = fs[fi];
  static const int pat[18][5] = {{1, 2, 0, 0, 0}, {2, 1, 1, 0, 0}, {2, 1, 2, 0, 0}, {2, 2, 1, 0, 0}, {3, 1, 2, 1, 0}, {3, 2, 1, 2, 0}, {3, 1, 2, 3, 0}, {3, 3, 2, 1, 0}, {3, 2, 2, 2, 0}, {1, 4, 0, 0, 0}, {4, 2, 1, 2, 1}, {4, 1, 2, 2, 3}, {2, 2, 1, 0, 0}, {2, 1, 2, 0, 0}, {2, 2, 2, 0, 0}, {3, 2, 2, 3, 0}, {4, 3, 3, 2, 2}, {4, 4, 1, 4, 1}};   // number of phases, generators
  int pi = sym::choice("pattern", 18); const int* P = pat[pi]; int nph = P[0];
  bool acc = sym::choice("acc", 2) == 1; bool glpk = acc;
  ProblemData pd; pd.constraints_.flag_ = f.flag; sym_state(pd, f); pd.costFunction_ = DISTANCE_TRAVELED; pd.representation_ = FORCE;
  pd.constraints_.constraintAcceleration_ = acc; pd.constraints_.maxAcceleration_ = sym::var("amax", 0.1, 20.0);
  std::vector<StubContact> S;
  for (int i = 0; i < nph; i++) {
    StubContact s; s.mass = sym::var(I("mass", i), 1.0, 90.0); s.H = cone(i, 1); s.h = Eigen::VectorXd::Zero(1); s.G.resize(6, P[i + 1]);
    for (int r = 0; r < 6; r++) for (int c = 0; c < P[i + 1]; c++) s.G(r, c) = sym::var("G" + std::to_string(i) + "_" + std::to_string(r) + std::to_string(c), 0.25, 2.0);
    ContactData cd(make_stub_contact(I("phase", i), s)); S.push_back(s);
    int kin = (i + pi + 1) % 3; cd.Kin_ = MatrixX3::Zero(kin, 3); cd.kin_ = VectorX::Zero(kin);
    for (int r = 0; r < kin; r++) { string kn = std::to_string(i) + "_" + std::to_string(r); for (int c = 0; c < 3; c++) cd.Kin_(r, c) = sym::var("K" + kn + std::to_string(c), 0.25, 2.0); cd.kin_(r) = sym::var("k" + kn, -5.0, 5.0); }
    pd.contacts_.push_back(cd);
  }
  double T = sym::var("T", 1.0, 6.0); VectorX Ts(nph); std::vector<double> cut(nph + 1, 0.0); cut[nph] = 1.0; double used = 0;   // two phases: the switch is at a symbolic instant
  for (int i = 0; i + 1 < nph; i++) { double u = i == 0 && nph == 2 ? sym::var("u", 0.0625, 0.9375) : nph == 3 ? (6 - 2 * i) / 16.0 : (2 + i) / 16.0; cut[i + 1] = cut[i] + u; Ts(i) = u * T; used = used + Ts(i); } Ts(nph - 1) = T - used;
  answer_failure(); computeCOMTraj(pd, Ts, -1, glpk ? solvers::SOLVER_GLPK : solvers::SOLVER_QUADPROG);
  Problem& q = captured(); string n = string(f.name) + " force";
  Affs c = ref_points(pd, f, T), dd = ref_derive(ref_derive(c, T), T); int dw = (int)computeWwaypoints(pd, T).size() - 1;
  struct Blk { int ph; W w; }; std::vector<Blk> blk; sym::Rows must;
  int nf = 0;
  for (int i = 0; i < nph; i++) {
    Affs cs = restrict_to(c, cut[i], cut[i + 1]), as = restrict_to(dd, cut[i], cut[i + 1]);
    for (size_t k = 0; k < cs.size(); k++) kin_rows(must, pd.contacts_[i], cs[k]);
    if (acc) for (size_t k = 0; k < as.size(); k++) acc_rows(must, pd.constraints_.maxAcceleration_, as[k]);
    std::vector<W> w = reduce(wrench_points(cs, as), dw); int k0 = 0, k1 = dw;
    if (i > 0 && P[i] < P[i + 1]) k0 = 1;                       // the previous phase is the more constrained one
    if (i + 1 < nph && P[i + 2] <= P[i + 1]) k1 = dw - 1;       // the next one is
    for (int k = k0; k <= k1; k++) { Blk b; b.ph = i; b.w = w[k]; blk.push_back(b); nf += P[i + 1]; }
  }
  long N = 3 + nf;
  sym::check(n + ": one problem over the free point and the force multipliers", q.calls == 1 && q.A.cols() == N && q.D.cols() == N && q.b.size() == q.A.rows() && q.d.size() == q.D.rows());
  sym::check(n + ": one wrench equality per control point", q.D.rows() == 6 * (long)blk.size());
  sym::check(n + ": solver selection", q.solver == (glpk ? solvers::SOLVER_GLPK : solvers::SOLVER_QUADPROG));
  // variable bounds: free point unbounded below, multipliers non-negative, nothing bounded above
  sym::check(n + ": bounds", q.lo.size() == N && q.hi.size() == 0);
  for (int i = 0; i < 3; i++) sym::check_le(n + ": free point is not bounded", q.lo(i), solvers::UNBOUNDED_DOWN, 0.0);
  for (long i = 3; i < N; i++) sym::check_eq(n + ": multipliers are not negative", q.lo(i), 0.0);
  // m (F x + S) + G f = 0, block by block: each force multiplier acts in one block only
  sym::Rows want; long col = 3;
  for (Blk& b : blk) {
    double m = S[b.ph].mass;
    for (int r = 0; r < 6; r++) { sym::Row w(N + 1, 0.0); for (int j = 0; j < 3; j++) w[j] = m * b.w.F(r, j); for (int g = 0; g < P[b.ph + 1]; g++) w[col + g] = S[b.ph].G(r, g); w[N] = -(m * b.w.S(r)); want.push_back(w); }
    col += P[b.ph + 1];
  }
  sym::check_equalities(n + ": wrench equalities", (int)N, to_rows(q.D, q.d), want);
  for (long i = 0; i < q.A.rows(); i++) for (long j = 3; j < N; j++) sym::check_eq(n + ": inequalities only involve the free point", q.A(i, j), 0.0);
  sym::check_halfspaces(n + ": kinematic and acceleration constraints", 3, to_rows(q.A.leftCols(3), q.b), must);
  sym::reach(string("force_") + f.name); sym::reach(I("pattern", pi)); sym::reach(acc ? "acc" : "noacc");
}
