// B19: end-effector objectives. Q(x) = 1/2 x'Hx + g'x must rank free points as the documented quantity does.
#include "ee.h"
// quantity = sum_ij M(i,j) p_i.p_j over affine control points -> x'Hr x + 2 gr'x (per axis, isotropic)
struct Quad { std::vector<std::vector<double>> h; std::vector<V3> g; Quad(int n) : h(n, std::vector<double>(n, 0.0)), g(n, V3(V3::Zero())) {} };
static void add(Quad& q, double m, const Aff& a, const Aff& b) {   // m * a.b
  for (size_t i = 0; i < a.k.size(); i++) { for (size_t j = 0; j < a.k.size(); j++) q.h[i][j] = q.h[i][j] + 0.5 * m * (a.k[i] * b.k[j] + a.k[j] * b.k[i]); q.g[i] += 0.5 * m * (a.k[i] * b.c + b.k[i] * a.c); }
}
// (H, g) is a positive multiple `scale` of the reference; returns nothing, raises obligations
static void same_quad(const string& n, const MatrixXX& H, const VectorX& g, const Quad& q, bool exact) {
  int nf = (int)q.h.size(), dim = 3 * nf; sym::check(n + ": sizes", H.rows() == dim && H.cols() == dim && g.size() == dim);
  double a = exact ? 1.0 : q.h[0][0], b = exact ? 1.0 : H(0, 0); if (!exact) sym::check_le(n + ": convex", 1e-9, H(0, 0), 0.0);
  for (int i = 0; i < dim; i++) { for (int j = 0; j < dim; j++) sym::check_eq(n + ": quadratic part", H(i, j) * a, i % 3 == j % 3 ? q.h[i / 3][j / 3] * b : 0.0); sym::check_eq(n + ": linear part", g(i) * a, q.g[i / 3][i % 3] * b); }
}
void harness_main() {
  sym::generic_eq(true);
  std::vector<FlagSet> fs = jerk_flags(); const FlagSet f = fs[sym::choice("flag", (int)fs.size())]; int dim = 3 * f.nf;
  int kind = sym::choice("kind", 6); ProblemData pd; pd.constraints_.flag_ = f.flag; sym_state(pd, f); double T = sym::var("T", 0.5, 4.0);
  std::vector<point_t> pi = computeConstantWaypoints(pd, T); Affs p = ref_points(pd, f, T), v = ref_derive(p, T); string n = f.name;
  RefPath path; path.a = symvec("pa", -5, 5); path.b = symvec("pb", -5, 5); path.c = symvec("pc", -5, 5);
  if (kind == 0) {        // distance to the reference path at equally spaced samples
    int N = 3 + 3 * sym::choice("points", 3); std::pair<MatrixXX, VectorX> Hg = computeDistanceCostFunction<RefPath>(N, pd, T, path); Quad q(f.nf);
    for (int i = 0; i < N; i++) { double u = (double)i / (N - 1); Aff w = ref_eval(p, u); w.c -= path(u); add(q, 1.0, w, w); }
    same_quad(n + " distance", Hg.first, Hg.second, q, false); sym::reach("distance");
  } else if (kind == 1) { // integral of the squared velocity
    std::pair<MatrixXX, VectorX> Hg = sym::choice("points", 2) ? computeVelocityCost(pd, T, pi) : computeVelocityCost(pd, T); Quad q(f.nf); int m = (int)v.size() - 1;
    for (int i = 0; i <= m; i++) for (int j = 0; j <= m; j++) add(q, T * binom(m, i) * binom(m, j) / binom(2 * m, i + j) / (2 * m + 1), v[i], v[j]);
    same_quad(n + " smoothness", Hg.first, Hg.second, q, false); sym::reach("velocity");
  } else if (kind <= 4) { // sampled derivatives; their evaluation itself is B17
    int ord = kind - 1, N = 2 + sym::choice("points", 3); MatrixXX H; VectorX g; const char* on[4] = {"", " velocity samples", " acceleration samples", " jerk samples"};
    if (ord == 1) computeVelCostFunctionDiscretized(N, pd, T, H, g); else if (ord == 2) computeAccelerationCostFunctionDiscretized(N, pd, T, H, g); else computeJerkCostFunctionDiscretized(N, pd, T, H, g);
    MatrixXX Hr = MatrixXX::Zero(dim, dim); VectorX gr = VectorX::Zero(dim); Quad q(f.nf); Affs d = p; for (int k = 0; k < ord; k++) d = ref_derive(d, T);
    for (int i = 0; i < N; i++) {
      double u = (double)i / (N - 1); Aff w = ref_eval(d, u); add(q, 1.0, w, w);
      waypoint_t e = ord == 1 ? evaluateVelocityCurveWaypointAtTime(pd, T, pi, u) : ord == 2 ? evaluateAccelerationCurveWaypointAtTime(pd, T, pi, u) : evaluateJerkCurveWaypointAtTime(pd, T, pi, u);
      for (int a = 0; a < dim; a++) { for (int b = 0; b < dim; b++) for (int r = 0; r < 3; r++) Hr(a, b) = Hr(a, b) + e.first(r, a) * e.first(r, b); for (int r = 0; r < 3; r++) gr(a) = gr(a) + e.first(r, a) * e.second(r); }
    }
    if (f.nf < 5) same_quad(n + on[ord], H, g, q, true); else { check_mat(n + on[ord] + ": quadratic part", H, Hr); check_vec(n + on[ord] + ": linear part", g, gr); }
    sym::reach(I("samples", ord));
  } else {                // total: weighted sum of the two terms
    double w = sym::choice("weight", 2) ? sym::var("w", 0.05, 1.0) : 0.0; std::pair<MatrixXX, VectorX> Hg;
    if (sym::choice("solve", 2)) { answer_failure(); solveEndEffector(pd, path, T, w); Hg.first = captured().H; Hg.second = captured().g; sym::reach("solve"); } else Hg = computeEndEffectorCost(pd, path, T, w, true, pi);
    std::pair<MatrixXX, VectorX> s = computeVelocityCost(pd, T, pi), d = computeDistanceCostFunction<RefPath>(50, pd, T, path);
    check_mat(n + " total: quadratic part", Hg.first, MatrixXX((1.0 - w) * s.first + w * d.first)); check_vec(n + " total: linear part", Hg.second, VectorX((1.0 - w) * s.second + w * d.second));
    sym::reach("total");
  }
  sym::reach(string("ee_") + f.name);
}
