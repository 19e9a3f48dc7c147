// B16: the problem solve0step poses.
#include "rows.h"
void harness_main() {
  sym::generic_eq(true);
  ProblemData pd; sym_state(pd); pd.useAngularMomentum_ = sym::choice("momentum", 2) == 1; bool am = pd.useAngularMomentum_; int dim = am ? 6 : 3;
  StubContact sc; int rows = 1 + sym::choice("rows", 2), kin = sym::choice("kin", 2) * rows; pd.contacts_.push_back(cone_phase(0, rows, kin, &sc));
  bool ang = sym::choice("ang", 2) == 1; ContactData& cd = pd.contacts_[0]; int na = ang ? 3 - rows : 0; cd.Ang_ = MatrixX3::Zero(na, 3); cd.ang_ = VectorX::Zero(na);
  for (int r = 0; r < na; r++) { for (int j = 0; j < 3; j++) cd.Ang_(r, j) = sym::var(I(I("A", r) + "_", j), 0.25, 2.0); cd.ang_(r) = sym::var(I("a", r), -5, 5); }
  double T = sym::var("T", 0.25, 4.0); int steps = sym::choice("steps", 4); std::vector<double> Ts(1, T); // 0: continuous, 1..3 steps
  bool longstep = steps == 0 && sym::choice("longstep", 2) == 1;
  answer_failure(); solve0step(pd, Ts, steps ? T / (steps + 0.5) : longstep ? 1.5 * T : -1);
  Problem& q = captured(); string n = string(am ? "with momentum" : "without momentum") + (steps ? ", discretised" : "");
  sym::check(n + ": sizes", q.calls == 1 && q.A.cols() == dim && q.b.size() == q.A.rows() && q.H.rows() == dim && q.H.cols() == dim && q.g.size() == dim);
  Affs c(4, Aff(1)); c[0].c = pd.c0_; c[1].c = pd.c0_ + (T / 3.0) * pd.dc0_; c[2].k[0] = c[3].k[0] = 1.0; Affs a = ref_derive(ref_derive(c, T), T);
  // momentum rate: derivative of the cubic l0, L, 0, 0
  Affs l(4, Aff(1)); l[0].c = pd.l0_; l[1].k[0] = 1.0; Affs dl = ref_derive(l, T);
  MatrixXX F[5]; VectorX S[5]; double kl[5]; V3 sl[5]; int np = steps ? steps + 1 : 5;
  if (steps) for (int i = 0; i < np; i++) { double u = (double)i / steps; ref_wrench(ref_eval(c, u), ref_eval(a, u), F[i], S[i]); Aff d = ref_eval(dl, u); kl[i] = d.k[0]; sl[i] = d.c; }
  else {
    for (int i = 0; i < 5; i++) { F[i] = MatrixXX::Zero(6, 3); S[i] = VectorX::Zero(6); kl[i] = 0; sl[i] = V3::Zero(); }
    V3 g(0, 0, -9.81);
    for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) {       // Bernstein product, degree 4
      double w = binom(3, i) / binom(4, i + j); MatrixXX& f = F[i + j]; VectorX& s = S[i + j]; V3 ag = a[j].c - g, v = c[i].k[0] * ag - a[j].k[0] * c[i].c; const V3& p = c[i].c;
      for (int k = 0; k < 3; k++) { f(k, k) += w * a[j].k[0]; s(k) += w * ag[k]; }
      f(3, 1) += w * v[2]; f(3, 2) -= w * v[1]; f(4, 0) -= w * v[2]; f(4, 2) += w * v[0]; f(5, 0) += w * v[1]; f(5, 1) -= w * v[0];
      s(3) += w * (p[1] * ag[2] - p[2] * ag[1]); s(4) += w * (p[2] * ag[0] - p[0] * ag[2]); s(5) += w * (p[0] * ag[1] - p[1] * ag[0]);
    }
    for (int k = 0; k < 3; k++) for (int j = 0; j < 3; j++) { double w = binom(2, k) * binom(2, j) / binom(4, k + j); kl[k + j] = kl[k + j] + w * dl[k].k[0]; sl[k + j] = sl[k + j] + w * dl[k].c; }   // elevation
  }
  sym::Rows want; Eigen::MatrixXd H = sc.H;
  for (int i = 0; i < np; i++) for (int r = 0; r < rows; r++) {
    sym::Row w(dim + 1, 0.0); double b = 0;
    for (int k = 0; k < 6; k++) { for (int j = 0; j < 3; j++) w[j] = w[j] - H(r, k) * sc.mass * F[i](k, j); b = b + H(r, k) * sc.mass * S[i](k); }
    if (am) for (int j = 0; j < 3; j++) { w[3 + j] = -H(r, 3 + j) * kl[i]; b = b + H(r, 3 + j) * sl[i][j]; }
    w[dim] = b; want.push_back(w);
  }
  for (int r = 0; r < kin; r++) { sym::Row w(dim + 1, 0.0); for (int j = 0; j < 3; j++) w[j] = cd.Kin_(r, j); w[dim] = cd.kin_(r); want.push_back(w); }
  if (am) for (int r = 0; r < na; r++) { sym::Row w(dim + 1, 0.0); for (int j = 0; j < 3; j++) w[3 + j] = cd.Ang_(r, j); w[dim] = cd.ang_(r); want.push_back(w); }
  sym::check_halfspaces(n + ": feasible set", dim, to_rows(q.A, q.b), want);
  // the cost: a positive multiple of |x - c0|^2, plus (with momentum) a multiple of the momentum integral
  for (int i = 0; i < dim; i++) for (int j = 0; j < dim; j++) if (i != j) sym::check_eq(n + ": cost has no cross terms", q.H(i, j), 0.0);
  for (int i = 0; i < 3; i++) { sym::check_le(n + ": distance weight is positive", 1e-5, q.H(i, i), 0.0); sym::check_eq(n + ": distance weights are equal", q.H(i, i), q.H(0, 0)); sym::check_eq(n + ": distance is to the initial position", q.g(i), -q.H(i, i) * pd.c0_[i]); }
  if (am) for (int i = 3; i < 6; i++) { sym::check_le(n + ": momentum weight is positive", 1e-5, q.H(i, i), 0.0); sym::check_eq(n + ": momentum weights are equal", q.H(i, i), q.H(3, 3)); sym::check_eq(n + ": momentum integral", q.g(i), -0.75 * q.H(i, i) * pd.l0_[i - 3]); }
  sym::reach(am ? "momentum" : "plain"); sym::reach(steps ? "discretised" : "continuous"); if (ang && am) sym::reach("ang"); if (kin) sym::reach("kin"); if (longstep) sym::reach("longstep");
}
