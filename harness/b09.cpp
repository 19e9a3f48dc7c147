// B09: the objective handed to the optimiser orders free points as the selected criterion does.
#include "rows.h"
void harness_main() {
  sym::generic_eq(true);
  std::vector<FlagSet> fs = com_flags(); int fi = sym::choice("flag", (int)fs.size()); const FlagSet f = fs[fi];
  int cost = sym::choice("cost", 4), api = sym::choice("api", 4), nph = 1 + sym::choice("phases", 3); bool dd = api != 3;
  ProblemData pd; pd.constraints_.flag_ = f.flag; sym_state(pd, f); pd.constraints_.reduce_h_ = 0;
  pd.representation_ = dd ? DOUBLE_DESCRIPTION : FORCE;
  static const CostFunction cf[4] = {DISTANCE_TRAVELED, ACCELERATION, TARGET_END_VELOCITY, UNKNOWN_COST}; static const char* cn[4] = {"distance", "acceleration", "end velocity", "unknown"}; pd.costFunction_ = cf[cost];
  for (int i = 0; i < nph; i++) {
    StubContact s; s.mass = 1.0; s.H = Eigen::MatrixXd::Zero(0, 6); s.h = Eigen::VectorXd::Zero(0); s.G = Eigen::MatrixXd::Zero(6, 1); ContactData cd(make_stub_contact(I("phase", i), s));
    cd.Kin_ = MatrixX3::Zero(0, 3); cd.kin_ = VectorX::Zero(0); pd.contacts_.push_back(cd);
  }
  VectorX Ts(nph); double T;
  if (api == 1) { if (nph == 1) Ts << 0.7; else if (nph == 2) Ts << 0.7, 0.6; else Ts << 0.7, 0.6, 0.65; T = nph == 1 ? 0.7 : nph == 2 ? 1.3 : 1.95; }
  else { T = sym::var("T", 0.5, 4.0); if (nph == 1) Ts << T; else if (nph == 2) { double a = 0.25 * T; Ts << a, T - a; } else { double a = 0.25 * T, b = 0.25 * T; Ts << a, b, T - a - b; } } int pts = 1 + (fi + nph) % 3;
  answer_failure(); bool threw = false;
  try { if (api == 0) computeCOMTrajFixedSize(pd, Ts, pts); else computeCOMTraj(pd, Ts, api == 1 ? 0.25 : -1.0); } catch (std::exception&) { threw = true; }
  string n = string(f.name) + " " + cn[cost]; bool refuse = cost == 3 || (cost == 2 && (f.flag & END_VEL));
  sym::check(n + ": refused exactly when unavailable", threw == refuse);
  if (threw) { sym::check(n + ": nothing is solved", captured().calls == 0); sym::reach(I("refused", cost)); return; }
  Problem& q = captured(); long N = q.A.cols(); sym::check(n + ": sizes", q.calls == 1 && N >= 3 && q.H.rows() == N && q.H.cols() == N && q.g.size() == N);
  double k = 0; V3 l = V3::Zero();    // criterion = k |x|^2 + 2 l.x + constant
  Affs c = ref_points(pd, f, T);
  if (cost == 0) { k = 1; l = -0.5 * (pd.c0_ + pd.c1_); }
  else if (cost == 2) { Aff v = ref_derive(c, T).back(); k = v.k[0] * v.k[0]; l = v.k[0] * (v.c - pd.dc1_); }
  else {
    Affs a = ref_derive(ref_derive(c, T), T); std::vector<double> us;
    if (api == 1) { T_time g = computeDiscretizedTime(Ts, 0.25); for (size_t i = 0; i < g.size(); i++) us.push_back(g[i].first / T); }
    else { int per = api == 0 ? pts : 7; us.push_back(0.0); for (int i = 0; i < nph; i++) { double s = 0.25 * i, e = i == nph - 1 ? 1.0 : 0.25 * (i + 1); for (int j = 1; j <= per; j++) us.push_back(s + (e - s) * j / per); } }
    for (double u : us) { Aff w = ref_eval(a, u); k = k + w.k[0] * w.k[0]; l += w.k[0] * w.c; }
  }
  for (long i = 0; i < N; i++) for (long j = 0; j < N; j++) if (i != j) sym::check_eq(n + ": no cross terms", q.H(i, j), 0.0);
  sym::check_le(n + ": convex", 1e-9, q.H(0, 0), 0.0);
  for (int i = 0; i < 3; i++) { sym::check_eq(n + ": isotropic", q.H(i, i), q.H(0, 0)); sym::check_eq(n + ": minimiser", q.g(i) * k, l[i] * q.H(0, 0)); }
  for (long i = 3; i < N; i++) { sym::check_le(n + ": force weights are not negative", 0.0, q.H(i, i), 0.0); sym::check_le(n + ": force weights are negligible", q.H(i, i), 1e-5, 0.0); sym::check_eq(n + ": no linear force cost", q.g(i), 0.0); }
  sym::reach(string("cost_") + f.name); sym::reach(I("cost", cost)); sym::reach(I("api", api)); if (N > 3) sym::reach("forces");
}
