// Shared reference model and environment stubs for the harnesses.
#pragma once
#include <sym.h>

#include <hpp/bezier-com-traj/common_solve_methods.hh>
#include <hpp/bezier-com-traj/cost/costfunction_definition.hh>
#include <hpp/bezier-com-traj/solve.hh>
#include <hpp/bezier-com-traj/solver/solver-abstract.hpp>
#include <hpp/bezier-com-traj/utils.hh>
#include <hpp/bezier-com-traj/waypoints/waypoints_definition.hh>
#include <map>
#include <string>
#include <vector>

#include "stubs.h"

#ifdef THOROUGH
static const bool deep = true;    // thorough tier: larger bounds
#else
static const bool deep = false;
#endif
using namespace bezier_com_traj;
using std::string;
typedef Eigen::Vector3d V3;

inline string I(const string& s, long i) { return s + std::to_string(i); }

inline V3 symvec(const string& n, double lo, double hi) {
  V3 r; const char* ax[3] = {"x", "y", "z"};
  for (int i = 0; i < 3; i++) r[i] = sym::var(n + "." + ax[i], lo, hi);
  return r;
}

// One supported set of boundary constraints.
struct FlagSet {
  const char* name;
  ConstraintFlag flag;
  int ni;      // control points fixed by the initial state (1: c0, 2: +dc0, 3: +ddc0, 4: +j0)
  int nf;      // free control points
  int ne;      // control points fixed by the final state
  bool stop;   // END_VEL without END_POS: the free point is repeated (terminal velocity zero)
  int npts() const { return ni + nf + ne + (stop ? 1 : 0); }
  int deg() const { return npts() - 1; }
};
inline std::vector<FlagSet> com_flags() {
  std::vector<FlagSet> r;
  r.push_back({"c0_dc0_c1", INIT_POS | INIT_VEL | END_POS, 2, 1, 1, false});
  r.push_back({"c0_dc0_dc1", INIT_POS | INIT_VEL | END_VEL, 2, 1, 0, true});
  r.push_back({"c0_dc0_dc1_c1", INIT_POS | INIT_VEL | END_POS | END_VEL, 2, 1, 2, false});
  r.push_back({"c0_dc0_ddc0", INIT_POS | INIT_VEL | INIT_ACC, 3, 1, 0, false});
  r.push_back({"c0_dc0_ddc0_c1", INIT_POS | INIT_VEL | INIT_ACC | END_POS, 3, 1, 1, false});
  r.push_back({"c0_dc0_ddc0_dc1_c1", INIT_POS | INIT_VEL | INIT_ACC | END_POS | END_VEL, 3, 1, 2, false});
  r.push_back({"c0_dc0_ddc0_ddc1_dc1_c1", INIT_POS | INIT_VEL | INIT_ACC | END_POS | END_VEL | END_ACC, 3, 1, 3, false});
  return r;
}
inline std::vector<FlagSet> jerk_flags() {
  ConstraintFlag all = INIT_POS | INIT_VEL | INIT_ACC | INIT_JERK | END_POS | END_VEL | END_ACC | END_JERK;
  std::vector<FlagSet> r;
  r.push_back({"j0_j1", all, 4, 1, 4, false});
  r.push_back({"j0_x3_j1", all | THREE_FREE_VAR, 4, 3, 4, false});
  r.push_back({"j0_x5_j1", all | FIVE_FREE_VAR, 4, 5, 4, false});
  return r;
}

// affine isotropic control point: sum_k coef[k] * x_k + cst
struct Aff {
  std::vector<double> k; V3 c;
  Aff(int nf = 1) : k(nf, 0.0), c(V3::Zero()) {}
};
inline Aff operator+(const Aff& a, const Aff& b) { Aff r = a; for (size_t i = 0; i < r.k.size(); i++) r.k[i] = a.k[i] + b.k[i]; r.c = a.c + b.c; return r; }
inline Aff operator-(const Aff& a, const Aff& b) { Aff r = a; for (size_t i = 0; i < r.k.size(); i++) r.k[i] = a.k[i] - b.k[i]; r.c = a.c - b.c; return r; }
inline Aff operator*(double s, const Aff& a) { Aff r = a; for (size_t i = 0; i < r.k.size(); i++) r.k[i] = s * a.k[i]; r.c = s * a.c; return r; }
typedef std::vector<Aff> Affs;

// Control points that the boundary states impose on a Bezier curve of degree n and duration T.
inline Affs ref_points(const ProblemData& p, const FlagSet& f, double T) {
  int n = f.deg(); Affs r(f.npts(), Aff(f.nf));
  double a1 = T / n, a2 = n > 1 ? a1 * T / (n - 1) : 0.0, a3 = n > 2 ? a2 * T / (n - 2) : 0.0;
  if (f.ni > 0) r[0].c = p.c0_;
  if (f.ni > 1) r[1].c = p.c0_ + a1 * p.dc0_;
  if (f.ni > 2) r[2].c = p.c0_ + 2.0 * a1 * p.dc0_ + a2 * p.ddc0_;
  if (f.ni > 3) r[3].c = p.c0_ + 3.0 * a1 * p.dc0_ + 3.0 * a2 * p.ddc0_ + a3 * p.j0_;
  for (int i = 0; i < f.nf; i++) r[f.ni + i].k[i] = 1.0;
  if (f.stop) r[n].k[0] = 1.0;
  if (f.ne > 0) r[n].c = p.c1_;
  if (f.ne > 1) r[n - 1].c = p.c1_ - a1 * p.dc1_;
  if (f.ne > 2) r[n - 2].c = p.c1_ - 2.0 * a1 * p.dc1_ + a2 * p.ddc1_;
  if (f.ne > 3) r[n - 3].c = p.c1_ - 3.0 * a1 * p.dc1_ + 3.0 * a2 * p.ddc1_ - a3 * p.j1_;
  return r;
}
inline double binom(int n, int k) { double r = 1; for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1); return r; }
inline double ipow(double t, int n) { double r = 1; for (int i = 0; i < n; i++) r = r * t; return r; }
// derivative control points
inline Affs ref_derive(const Affs& p, double T) {
  Affs r; int n = (int)p.size() - 1; for (int i = 0; i < n; i++) r.push_back(((double)n / T) * (p[i + 1] - p[i])); return r;
}
inline Aff ref_eval(const Affs& p, double u) {   // u in [0,1]
  int n = (int)p.size() - 1; Aff r((int)p[0].k.size());
  for (int i = 0; i <= n; i++) r = r + (binom(n, i) * ipow(u, i) * ipow(1.0 - u, n - i)) * p[i];
  return r;
}
inline void sym_state(ProblemData& p, double B = 5.0) {
  p.c0_ = symvec("c0", -B, B); p.dc0_ = symvec("dc0", -B, B); p.ddc0_ = symvec("ddc0", -B, B); p.j0_ = symvec("j0", -B, B);
  p.c1_ = symvec("c1", -B, B); p.dc1_ = symvec("dc1", -B, B); p.ddc1_ = symvec("ddc1", -B, B); p.j1_ = symvec("j1", -B, B);
  p.l0_ = symvec("l0", -B, B);
}
// the capturability problem only supports a terminal velocity of zero (documented; see B21)
inline void sym_state(ProblemData& p, const FlagSet& f) { sym_state(p); if (f.stop) p.dc1_ = V3::Zero(); }
// one contact phase with a symbolic mass and `rows` symbolic GIWC rows
inline ContactData sym_phase(int id, int rows, bool kin, int gcols = 0) {
  StubContact s; s.mass = sym::var(I("mass", id), 1.0, 90.0);
  s.H.resize(rows, 6); s.h = Eigen::VectorXd::Zero(rows);
  for (int r = 0; r < rows; r++) for (int c = 0; c < 6; c++) s.H(r, c) = sym::var("H" + std::to_string(id) + "_" + std::to_string(r) + std::to_string(c), -2.0, 2.0);
  s.G.resize(6, gcols); for (int r = 0; r < 6; r++) for (int c = 0; c < gcols; c++) s.G(r, c) = sym::var("G" + std::to_string(id) + "_" + std::to_string(r) + std::to_string(c), -2.0, 2.0);
  ContactData cd(make_stub_contact(I("phase", id), s));
  if (kin) {
    cd.Kin_ = MatrixX3::Zero(1, 3); cd.kin_ = VectorX::Zero(1);
    for (int c = 0; c < 3; c++) cd.Kin_(0, c) = sym::var("K" + std::to_string(id) + "_" + std::to_string(c), -2.0, 2.0);
    cd.kin_(0) = sym::var(I("k", id), -5.0, 5.0);
  } else { cd.Kin_ = MatrixX3::Zero(0, 3); cd.kin_ = VectorX::Zero(0); }
  cd.Ang_ = MatrixX3::Zero(0, 3); cd.ang_ = VectorX::Zero(0);
  return cd;
}
template <typename A, typename B> void check_vec(const string& w, const A& a, const B& b) {
  sym::check(w + ": size", a.size() == b.size());
  for (long i = 0; i < a.size(); i++) sym::check_eq(w + "[" + std::to_string(i) + "]", a(i), b(i));
}
template <typename A, typename B> void check_mat(const string& w, const A& a, const B& b) {
  sym::check(w + ": rows", a.rows() == b.rows()); sym::check(w + ": cols", a.cols() == b.cols());
  for (long i = 0; i < a.rows(); i++) for (long j = 0; j < a.cols(); j++) sym::check_eq(w + "(" + std::to_string(i) + "," + std::to_string(j) + ")", a(i, j), b(i, j));
}
inline sym::Rows to_rows(const Eigen::MatrixXd& A, const Eigen::VectorXd& b) {
  sym::Rows r; for (long i = 0; i < A.rows(); i++) { sym::Row w; for (long j = 0; j < A.cols(); j++) w.push_back(A(i, j)); w.push_back(b(i)); r.push_back(w); } return r;
}
