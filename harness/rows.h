// Reference constraint rows (a.x <= b over the free control point x), written from the physics:
// Newton-Euler, G f = m [c''-g ; c x (c''-g)], cone  H.[m(g-c'') ; m c x (g-c'')] <= h.
#pragma once
#include "capture.h"
struct Rng { sym::Rows r; void add(double a, double b, double c, double d) { r.push_back({a, b, c, d}); } };
inline void row3(sym::Rows& out, const V3& a, double b) { out.push_back({a[0], a[1], a[2], b}); }
// wrench acceleration [c''-g ; c x (c''-g)] = F x + S for a point c = kc x + sc with acceleration ka x + sa
inline void ref_wrench(const Aff& c, const Aff& a, MatrixXX& F, VectorX& S) {
  F = MatrixXX::Zero(6, 3); S = VectorX::Zero(6); V3 g(0, 0, -9.81);
  V3 ag = a.c - g; V3 v = c.k[0] * ag - a.k[0] * c.c;   // c x (a-g) = x x v + c.c x ag
  F(0, 0) = F(1, 1) = F(2, 2) = a.k[0];
  F(3, 1) = v[2]; F(3, 2) = -v[1]; F(4, 0) = -v[2]; F(4, 2) = v[0]; F(5, 0) = v[1]; F(5, 1) = -v[0];
  S(0) = ag[0]; S(1) = ag[1]; S(2) = ag[2];
  S(3) = c.c[1] * ag[2] - c.c[2] * ag[1]; S(4) = c.c[2] * ag[0] - c.c[0] * ag[2]; S(5) = c.c[0] * ag[1] - c.c[1] * ag[0];
}
// cone rows with unit normals, tightened by the margin:  -Hn.(F x + S) <= h - margin
inline void stab_rows(sym::Rows& out, const Eigen::MatrixXd& H, double margin, const MatrixXX& F, const VectorX& S) {
  for (long r = 0; r < H.rows(); r++) {
    double n = 0; for (int c = 0; c < 6; c++) n = n + H(r, c) * H(r, c); n = sqrt(n);
    V3 a = V3::Zero(); double b = -margin;
    for (int c = 0; c < 6; c++) { double k = H(r, c) / n; for (int j = 0; j < 3; j++) a[j] = a[j] - k * F(c, j); b = b + k * S(c); }
    row3(out, a, b);
  }
}
inline void kin_rows(sym::Rows& out, const ContactData& cd, const Aff& c) {
  for (long r = 0; r < cd.Kin_.rows(); r++) { V3 k(cd.Kin_(r, 0), cd.Kin_(r, 1), cd.Kin_(r, 2)); double b = cd.kin_(r); for (int j = 0; j < 3; j++) b = b - k[j] * c.c[j]; row3(out, c.k[0] * k, b); }
}
inline void acc_rows(sym::Rows& out, double bound, const Aff& a) {
  for (int j = 0; j < 3; j++) { V3 e = V3::Zero(); e[j] = a.k[0]; row3(out, e, bound - a.c[j]); e[j] = -a.k[0]; row3(out, e, bound + a.c[j]); }
}
// contact phases: concrete, asymmetric cone rows that allow standing still near the origin, symbolic kinematic row
inline Eigen::MatrixXd cone(int id, int rows) {
  static const double R[4][6] = {{1, 2, 4, 6, 8, -10}, {-2, 3, 6, 4, 0, 4}, {2, -4, 5, 6, 10, 0}, {0, 2, 6, -4, 4, 3}};   // norms: sqrt(221), 9, sqrt(181), 9
  Eigen::MatrixXd H(rows, 6); for (int r = 0; r < rows; r++) for (int c = 0; c < 6; c++) H(r, c) = R[(2 * id + r + 1) % 4][c]; return H;
}
inline ContactData cone_phase(int id, int rows, int kin, StubContact* keep = nullptr) {
  StubContact s; s.mass = sym::var(I("mass", id), 1.0, 90.0); s.H = cone(id, rows); s.h = Eigen::VectorXd::Zero(rows); s.G = Eigen::MatrixXd::Zero(6, 0);
  ContactData cd(make_stub_contact(I("phase", id), s)); if (keep) *keep = s;
  cd.Kin_ = MatrixX3::Zero(kin, 3); cd.kin_ = VectorX::Zero(kin);
  for (int r = 0; r < kin; r++) { string n = std::to_string(id) + (r ? I("r", r) : string()); for (int c = 0; c < 3; c++) cd.Kin_(r, c) = sym::var("K" + n + "_" + std::to_string(c), 0.25, 2.0); cd.kin_(r) = sym::var("k" + n, -5.0, 5.0); }
  return cd;
}
