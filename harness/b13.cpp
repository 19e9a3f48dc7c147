// B13: the LP adapter, against a recording GLPK.
#include "common.h"
#include <glpk.h>
struct Bnd { int type = GLP_FR; double lo = 0, hi = 0; bool set = false; };
struct Lp { int created = 0, deleted = 0, dir = -1, simplex = 0, nr = 0, nc = 0, ne = -1; std::vector<Bnd> rows, cols; std::vector<double> obj; std::vector<int> ia, ja; std::vector<double> ar; double shift = 0; };
static Lp& lp() { static Lp l; return l; }
static int g_status = GLP_OPT, g_ret = 0; static std::vector<double> g_prim; static bool bad = false;
static glp_prob* P() { static long x; return (glp_prob*)&x; }
static void need(glp_prob* p) { if (p != P() || lp().deleted) bad = true; }
extern "C" {
glp_prob* glp_create_prob(void) { lp().created++; lp().rows.resize(1); lp().cols.resize(1); lp().obj.assign(1, 0.0); lp().dir = GLP_MIN; return P(); }
void glp_set_prob_name(glp_prob* p, const char*) { need(p); }
void glp_set_obj_dir(glp_prob* p, int d) { need(p); lp().dir = d; }
int glp_add_rows(glp_prob* p, int n) { need(p); if (n < 1) bad = true; int r = lp().nr + 1; lp().nr += n; lp().rows.resize(lp().nr + 1); return r; }
int glp_add_cols(glp_prob* p, int n) { need(p); if (n < 1) bad = true; int r = lp().nc + 1; lp().nc += n; lp().cols.resize(lp().nc + 1); for (int i = 0; i < n; i++) { lp().obj.push_back(0.0); lp().cols[r + i].type = GLP_FX; } return r; }
void glp_set_row_bnds(glp_prob* p, int i, int t, double lb, double ub) { need(p); if (i < 1 || i > lp().nr) { bad = true; return; } Bnd& b = lp().rows[i]; b.type = t; b.lo = lb; b.hi = ub; b.set = true; }
void glp_set_col_bnds(glp_prob* p, int j, int t, double lb, double ub) { need(p); if (j < 1 || j > lp().nc) { bad = true; return; } Bnd& b = lp().cols[j]; b.type = t; b.lo = lb; b.hi = ub; b.set = true; }
void glp_set_obj_coef(glp_prob* p, int j, double c) { need(p); if (j == 0) { lp().shift = c; return; } if (j < 0 || j > lp().nc) { bad = true; return; } lp().obj[j] = c; }
void glp_load_matrix(glp_prob* p, int ne, const int* ia, const int* ja, const double* ar) { need(p); lp().ne = ne; lp().ia.assign(1, 0); lp().ja.assign(1, 0); lp().ar.assign(1, 0.0); for (int k = 1; k <= ne; k++) { lp().ia.push_back(ia[k]); lp().ja.push_back(ja[k]); lp().ar.push_back(ar[k]); } }
void glp_set_mat_row(glp_prob* p, int i, int len, const int* ind, const double* val) { need(p); if (lp().ne < 0) { lp().ne = 0; lp().ia.assign(1, 0); lp().ja.assign(1, 0); lp().ar.assign(1, 0.0); } for (int k = 1; k <= len; k++) { lp().ne++; lp().ia.push_back(i); lp().ja.push_back(ind[k]); lp().ar.push_back(val[k]); } }
void glp_init_smcp(glp_smcp* s) { memset(s, 0, sizeof *s); }
int glp_simplex(glp_prob* p, const glp_smcp*) { need(p); lp().simplex++; return g_ret; }
int glp_exact(glp_prob* p, const glp_smcp*) { need(p); lp().simplex++; return g_ret; }
int glp_get_status(glp_prob* p) { need(p); return g_status; }
double glp_get_obj_val(glp_prob* p) { need(p); double v = lp().shift; for (int j = 1; j <= lp().nc; j++) v = v + lp().obj[j] * g_prim[j - 1]; return v; }
double glp_get_col_prim(glp_prob* p, int j) { need(p); if (j < 1 || j > lp().nc) { bad = true; return 0; } return g_prim[j - 1]; }
int glp_get_num_cols(glp_prob*) { return lp().nc; }
int glp_get_num_rows(glp_prob*) { return lp().nr; }
void glp_set_mat_col(glp_prob* p, int j, int len, const int* ind, const double* val) { need(p); if (lp().ne < 0) { lp().ne = 0; lp().ia.assign(1, 0); lp().ja.assign(1, 0); lp().ar.assign(1, 0.0); } for (int k = 1; k <= len; k++) { lp().ne++; lp().ia.push_back(ind[k]); lp().ja.push_back(j); lp().ar.push_back(val[k]); } }
void glp_set_row_name(glp_prob*, int, const char*) {}
void glp_set_col_name(glp_prob*, int, const char*) {}
void glp_set_obj_name(glp_prob*, const char*) {}
void glp_sort_matrix(glp_prob*) {}
int glp_get_prim_stat(glp_prob*) { return g_status == GLP_OPT ? GLP_FEAS : g_status; }
void glp_scale_prob(glp_prob*, int) {}
void glp_adv_basis(glp_prob*, int) {}
void glp_std_basis(glp_prob*) {}
int glp_term_out(int) { return 0; }
void glp_delete_prob(glp_prob* p) { need(p); lp().deleted++; }
int glp_free_env(void) { return 0; }
}
static bool lower(const Bnd& b) { return b.type == GLP_LO || b.type == GLP_DB || b.type == GLP_FX; }
static bool upper(const Bnd& b) { return b.type == GLP_UP || b.type == GLP_DB || b.type == GLP_FX; }
// what the LP means, as inequalities and equalities
static void meaning(int n, sym::Rows& in, sym::Rows& eq) {
  std::vector<sym::Row> m(lp().nr + 1, sym::Row(n, 0.0));
  for (int k = 1; k <= lp().ne; k++) { int i = lp().ia[k], j = lp().ja[k]; if (i < 1 || i > lp().nr || j < 1 || j > n) { bad = true; continue; } m[i][j - 1] = m[i][j - 1] + lp().ar[k]; }
  auto put = [&](sym::Row r, const Bnd& b) {
    sym::Row up = r, dn; for (double x : r) dn.push_back(-x);
    if (b.type == GLP_FX) { up.push_back(b.lo); eq.push_back(up); return; }
    if (upper(b)) { up.push_back(b.hi); in.push_back(up); } if (lower(b)) { dn.push_back(-b.lo); in.push_back(dn); }
    if (b.type == GLP_DB && sym::same(b.lo, b.hi)) bad = true;   // rejected by glp_simplex: a fixed value must be GLP_FX
  };
  for (int i = 1; i <= lp().nr; i++) put(m[i], lp().rows[i]);
  for (int j = 1; j <= lp().nc && j <= n; j++) { sym::Row r(n, 0.0); r[j - 1] = 1.0; put(r, lp().cols[j]); }
}
void harness_main() {
  sym::generic_eq(true);
  if (sym::choice("large", 2)) {
    int n = 150, r = 140; Eigen::MatrixXd A(r, n), D(r, n); for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) { A(i, j) = 1 + (i * 7 + j * 3) % 11; D(i, j) = -1 - (i * 5 + j) % 13; }
    Eigen::VectorXd b = Eigen::VectorXd::Ones(r), d = Eigen::VectorXd::Ones(r), g = Eigen::VectorXd::Ones(n), x = Eigen::VectorXd::Zero(n), none(0);
    for (int j = 0; j < n; j++) g_prim.push_back(j % 5); solvers::ResultData q = solvers::solve(A, b, D, d, Eigen::MatrixXd::Identity(n, n), g, x, none, none, solvers::SOLVER_GLPK);
    sym::check("large problem: solved", q.success_ && !bad); sym::check("large problem: dimensions", lp().nr == 2 * r && lp().nc == n && lp().ne == 2 * r * n);
    std::vector<int> cnt(2 * r + 1, 0); bool ok = true;
    for (int k = 1; k <= lp().ne; k++) { int i = lp().ia[k] - 1, j = lp().ja[k] - 1; if (i < 0 || j < 0 || i >= 2 * r || j >= n) { ok = false; continue; } bool fx = lp().rows[i + 1].type == GLP_FX; (void)fx; double v = i < r ? A(i, j) : D(i - r, j), v2 = i < r ? D(i, j) : A(i - r, j); if (lp().ar[k] != (fx == (i >= r) ? v : v2)) ok = false; }
    sym::check("large problem: coefficients", ok); sym::check_eq("large problem: cost", q.cost_, 2.0 * n); sym::reach("large"); return;
  }
  int n = 1 + sym::choice("n", 4), mi = sym::choice("mi", 3), me = sym::choice("me", 2); bool big = n == 4; if (big) { n = 5; mi = 2 * mi; me = 2 * me; } if (mi + me == 0) mi = 1;   // an LP without rows is not a problem this library poses
  int pat = sym::choice("bounds", 7);   // 0: no bounds, 1: lower, 2: upper, 3: both, 4: both, the last variable fixed, 5: both given but infinite, 6: mixed
  bool lo = pat == 1 || pat >= 3, hi = pat >= 2;
  Eigen::MatrixXd A(mi, n), D(me, n), H = Eigen::MatrixXd::Identity(n, n); Eigen::VectorXd b(mi), d(me), g(n), init(n), l(lo ? n : 0), u(hi ? n : 0);
  int zero = sym::choice("zero", 3);    // pattern of zero coefficients
  for (int j = 0; j < n; j++) {
    for (int i = 0; i < mi; i++) A(i, j) = zero == 1 && j == i ? 0.0 : sym::var("A" + std::to_string(i) + std::to_string(j), -3, 3);
    for (int i = 0; i < me; i++) D(i, j) = zero == 2 && j == n - 1 && n > 1 ? 0.0 : sym::var("D" + std::to_string(i) + std::to_string(j), -3, 3);
    g(j) = sym::var(I("g", j), -3, 3); init(j) = sym::var(I("i", j), -3, 3);
    if (lo) l(j) = sym::var(I("lo", j), -3, -0.5); if (hi) u(j) = sym::var(I("hi", j), 0.5, 3);
    if (pat == 5 || (pat == 6 && j == 0)) { l(j) = solvers::UNBOUNDED_DOWN; u(j) = solvers::UNBOUNDED_UP; }
    if (pat == 6 && j == 1) l(j) = solvers::UNBOUNDED_DOWN; if (pat == 6 && j == 2) u(j) = solvers::UNBOUNDED_UP;
    g_prim.push_back(sym::var(I("p", j), -9, 9));
  }
  if (pat == 4) u(n - 1) = l(n - 1);
  for (int i = 0; i < mi; i++) b(i) = sym::var(I("b", i), -3, 3); for (int i = 0; i < me; i++) d(i) = sym::var(I("d", i), -3, 3);
  static const int st[5] = {GLP_OPT, GLP_FEAS, GLP_INFEAS, GLP_NOFEAS, GLP_UNBND}; g_status = st[zero == 0 && !big ? sym::choice("status", 5) : 0];
  solvers::ResultData r = solvers::solve(A, b, D, d, H, g, init, l, u, solvers::SOLVER_GLPK);
  sym::check("one LP is created, solved and deleted", lp().created == 1 && lp().deleted == 1 && lp().simplex == 1);
  sym::check("one column per variable", lp().nc == n);
  sym::Rows in, eq, wi = to_rows(A, b), we = to_rows(D, d); meaning(n, in, eq); sym::check("GLPK is used within its contract", !bad);
  for (int i = 0; i < n; i++) {
    sym::Row w(n + 1, 0.0);
    if (pat == 4 && i == n - 1) { w[i] = 1.0; w[n] = l(i); we.push_back(w); continue; }
    if (lo && !(pat == 5 || (pat == 6 && i < 2))) { w[i] = -1.0; w[n] = -l(i); wi.push_back(w); } w[i] = 0.0;
    if (hi && !(pat == 5 || (pat == 6 && (i == 0 || i == 2)))) { w[i] = 1.0; w[n] = u(i); wi.push_back(w); }
  }
  sym::check_equalities("equalities", n, eq, we); sym::check_halfspaces("inequalities", n, in, wi);
  bool min = lp().dir == GLP_MIN; for (int j = 0; j < n; j++) sym::check_eq("objective", min ? lp().obj[j + 1] : -lp().obj[j + 1], g(j));
  sym::check("success iff optimal", r.success_ == (g_status == GLP_OPT));
  if (r.success_) { for (int j = 0; j < n; j++) sym::check_eq("solution", r.x(j), g_prim[j]); sym::check("solution size", r.x.size() == n); double v = 0; for (int j = 0; j < n; j++) v = v + g(j) * g_prim[j]; sym::check_eq("cost", r.cost_, v); }
  if (big) sym::reach("five_variables"); sym::reach(r.success_ ? "optimal" : "not_optimal"); sym::reach(I("bounds", pat)); sym::reach(I("zero", zero));
}
