// B22: waypoint algebra, skew, Bernstein polynomials, assembly of curves.
#include "common.h"
static waypoint_t symwp(const string& n, int r, int c) {
  waypoint_t w = initwp(r, c); for (int i = 0; i < r; i++) { for (int j = 0; j < c; j++) w.first(i, j) = sym::var(n + std::to_string(i) + "_" + std::to_string(j), -9, 9); w.second(i) = sym::var(n + "c" + std::to_string(i), -9, 9); } return w;
}
// value of the affine map at x
static Eigen::VectorXd at(const waypoint_t& w, const Eigen::VectorXd& x) {
  Eigen::VectorXd r(w.second.size()); for (int i = 0; i < r.size(); i++) { double s = w.second(i); for (int j = 0; j < x.size(); j++) s += w.first(i, j) * x(j); r(i) = s; } return r;
}
template <typename P> static void zero_wp(const char* n, int rows, int cols) {
  P w = initwp<P>(); sym::check(string(n) + " sizes", w.first.rows() == rows && w.first.cols() == cols && w.second.size() == rows);
  for (int i = 0; i < rows; i++) { sym::check_eq(n, w.second(i), 0.0); for (int j = 0; j < cols; j++) sym::check_eq(n, w.first(i, j), 0.0); }
}
void harness_main() {
  int part = sym::choice("part", 5);
  if (part == 0) {   // algebra
    int sz[6][2] = {{1, 1}, {3, 3}, {3, 9}, {6, 3}, {6, 6}, {3, 15}}; int z = sym::choice("size", 6), r = sz[z][0], c = sz[z][1];
    waypoint_t a = symwp("a", r, c), b = symwp("b", r, c); double k = sym::var("k", -20, 20);
    Eigen::VectorXd x(c); for (int j = 0; j < c; j++) x(j) = sym::var(I("x", j), -9, 9);
    check_vec("(a+b)(x)", at(a + b, x), Eigen::VectorXd(at(a, x) + at(b, x)));
    check_vec("(a-b)(x)", at(a - b, x), Eigen::VectorXd(at(a, x) - at(b, x)));
    check_vec("(k a)(x)", at(k * a, x), Eigen::VectorXd(k * at(a, x))); check_vec("(a k)(x)", at(a * k, x), Eigen::VectorXd(k * at(a, x)));
    check_vec("operands unchanged", at(a, x), at(symwp("a", r, c), x));
    sym::check("size of the results", (int)(a + b).size() == r && (int)(k * a).size() == r);
    waypoint_t o = waypoint_t::Zero(r); sym::check("Zero sizes", o.first.rows() == r && o.first.cols() == r && (int)o.size() == r);
    for (int i = 0; i < r; i++) { sym::check_eq("Zero constant", o.second(i), 0.0); for (int j = 0; j < r; j++) sym::check_eq("Zero matrix", o.first(i, j), 0.0); }
    // curves of waypoints: evaluation, then evaluation at x, commute
    if (z == 1 || z == 3) {
      double T = sym::var("T", 0.25, 4.0), u = sym::var("u", 0, 1); std::vector<waypoint_t> p = {a, b, symwp("d", r, c)};
      bezier_wp_t cv(p.begin(), p.end(), 0.0, T); waypoint_t v = cv(u * T); Eigen::VectorXd e = at(v, x);
      Eigen::VectorXd w = (1.0 - u) * (1.0 - u) * at(p[0], x) + 2.0 * u * (1.0 - u) * at(p[1], x) + u * u * at(p[2], x); check_vec("curve of waypoints", e, w); sym::reach("curve");
    }
    sym::reach(I("alg", z));
  } else if (part == 1) {   // size mismatch
    int r1 = 1 + sym::choice("r1", 3), c1 = 1 + sym::choice("c1", 3), s1 = 1 + sym::choice("s1", 3), r2 = 1 + sym::choice("r2", 3), c2 = 1 + sym::choice("c2", 3), s2 = 1 + sym::choice("s2", 3), op = sym::choice("op", 2);
    waypoint_t a(MatrixXX::Constant(r1, c1, sym::var("a", -9, 9)), VectorX::Constant(s1, sym::var("b", -9, 9))), b(MatrixXX::Constant(r2, c2, sym::var("c", -9, 9)), VectorX::Constant(s2, sym::var("d", -9, 9)));
    bool same = r1 == r2 && c1 == c2 && s1 == s2, thrown = false; waypoint_t w;
    try { if (op) w = a + b; else w = a - b; } catch (std::exception&) { thrown = true; }
    sym::check("sums of different sizes are refused, others are not", thrown == !same);
    if (!thrown) { double sg = op ? 1.0 : -1.0; sym::check("result sizes", w.first.rows() == r1 && w.first.cols() == c1 && w.second.size() == s1); for (int i = 0; i < s1; i++) sym::check_eq("constant part", w.second(i), b.second(0) * sg + a.second(0)); for (int i = 0; i < r1; i++) for (int j = 0; j < c1; j++) sym::check_eq("matrix part", w.first(i, j), b.first(0, 0) * sg + a.first(0, 0)); }
    sym::reach(thrown ? "refused" : "accepted");
  } else if (part == 2) {   // skew and zero initialisation
    V3 a = symvec("a", -9, 9), b = symvec("b", -9, 9); Matrix3 s = skew(a); V3 x(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]);
    for (int i = 0; i < 3; i++) { double v = 0; for (int j = 0; j < 3; j++) v += s(i, j) * b[j]; sym::check_eq("skew(a) b is the cross product", v, x[i]); }
    zero_wp<waypoint3_t>("initwp<waypoint3_t>", 3, 3); zero_wp<waypoint6_t>("initwp<waypoint6_t>", 6, 3); zero_wp<waypoint9_t>("initwp<waypoint9_t>", 3, 9);
    sym::reach("skew");
  } else if (part == 3) {   // Bernstein weights
    int n = sym::choice("degree", 14); double u = sym::var("u", 0, 1); std::vector<ndcurves::Bern<double> > B = ComputeBersteinPolynoms(n);
    sym::check("number of Bernstein polynomials", (int)B.size() == n + 1); double s = 0;
    for (int i = 0; i <= n; i++) { double v = B[i](u); s += v; sym::check_eq("Bernstein polynomial " + std::to_string(i) + " of degree " + std::to_string(n), v, binom(n, i) * ipow(u, i) * ipow(1.0 - u, n - i)); sym::check_le("non-negative weight", 0.0, v); }
    sym::check_eq("the weights sum to one", s, 1.0); sym::reach("bernstein");
  } else {                  // assembly
    std::vector<FlagSet> fs = com_flags(); fs.push_back(jerk_flags()[0]); const FlagSet f = fs[sym::choice("flag", (int)fs.size())];
    double T = sym::var("T", 0.25, 4.0), u = sym::var("u", 0, 1); V3 x = symvec("x", -9, 9); std::vector<point_t> p; for (int i = 0; i < f.npts(); i++) p.push_back(symvec(I("p", i), -9, 9));
    bezier_t c = computeBezierCurve<bezier_t, point_t>(f.flag, T, p, x);
    sym::check(string(f.name) + ": degree", (int)c.degree_ == f.deg()); sym::check_eq("start", c.min(), 0.0); sym::check_eq("end", c.max(), T);
    std::vector<V3> w; for (int i = 0; i < f.npts(); i++) w.push_back((i == f.ni || (f.stop && i == f.ni + 1)) ? x : V3(p[i]));
    int i = 0; for (auto it = c.waypoints().begin(); it != c.waypoints().end(); ++it, ++i) check_vec(string(f.name) + ": control point " + std::to_string(i), *it, w[i]);
    V3 e = V3::Zero(); int n = f.deg(); for (int k = 0; k <= n; k++) e += binom(n, k) * ipow(u, k) * ipow(1.0 - u, n - k) * w[k];
    check_vec(string(f.name) + ": value", V3(c(u * T)), e);
    sym::reach(string("asm_") + f.name);
  }
}
