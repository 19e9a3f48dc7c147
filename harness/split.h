// Restriction of curves to a time interval and control points of the contact wrench (reference model).
#pragma once
#include "rows.h"
inline Affs restrict_to(const Affs& p, double u0, double u1) {   // blossom: k-th point = p[u0^(n-k) u1^k]
  int n = (int)p.size() - 1; Affs r;
  for (int k = 0; k <= n; k++) { Affs q = p; for (int l = 0; l < n; l++) { double u = l < n - k ? u0 : u1; Affs s; for (size_t i = 0; i + 1 < q.size(); i++) s.push_back((1.0 - u) * q[i] + u * q[i + 1]); q = s; } r.push_back(q[0]); }
  return r;
}
// product of two Bezier curves' Bernstein weights: coefficient of b_i^n b_j^m in b_{i+j}^{n+m}
inline double pw(int n, int i, int m, int j) { return binom(n, i) * binom(m, j) / binom(n + m, i + j); }
struct W { MatrixXX F; VectorX S; W() : F(MatrixXX::Zero(6, 3)), S(VectorX::Zero(6)) {} };
// control points of [c''-g ; c x (c''-g)] of degree n+m (c of degree n, c'' of degree m), then degree-reduced to d
inline std::vector<W> wrench_points(const Affs& c, const Affs& a) {
  int n = (int)c.size() - 1, m = (int)a.size() - 1; std::vector<W> r(n + m + 1);
  V3 g(0, 0, -9.81);
  for (int i = 0; i <= n; i++) for (int j = 0; j <= m; j++) {
    double w = pw(n, i, m, j); W& o = r[i + j]; V3 ag = a[j].c - g; V3 v = c[i].k[0] * ag - a[j].k[0] * c[i].c; const V3& s = c[i].c;
    for (int k = 0; k < 3; k++) { o.F(k, k) += w * a[j].k[0]; o.S(k) += w * ag[k]; }
    o.F(3, 1) += w * v[2]; o.F(3, 2) -= w * v[1]; o.F(4, 0) -= w * v[2]; o.F(4, 2) += w * v[0]; o.F(5, 0) += w * v[1]; o.F(5, 1) -= w * v[0];
    o.S(3) += w * (s[1] * ag[2] - s[2] * ag[1]); o.S(4) += w * (s[2] * ag[0] - s[0] * ag[2]); o.S(5) += w * (s[0] * ag[1] - s[1] * ag[0]);
  }
  return r;
}
// exact degree reduction of a curve known to have degree d: solve the elevation equations from the left
inline std::vector<W> reduce(std::vector<W> p, int d) {
  while ((int)p.size() - 1 > d) { int n = (int)p.size() - 1; std::vector<W> q(n); q[0] = p[0];
    for (int i = 1; i < n; i++) { double t = (double)i / n, k = 1.0 / (1.0 - t); q[i].F = k * p[i].F - (t * k) * q[i - 1].F; q[i].S = k * p[i].S - (t * k) * q[i - 1].S; } p = q; }
  return p;
}
