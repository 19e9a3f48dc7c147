// B18: end-effector constraints: velocity, acceleration and jerk control points within bounds, free points above ground.
#include "ee.h"
void harness_main() {
  sym::generic_eq(true);
  std::vector<FlagSet> fs = jerk_flags(); const FlagSet f = fs[sym::choice("flag", (int)fs.size())];
  int api = sym::choice("api", 3);   // 0: whole problem, 1: given bounds, 2: given bounds, no jerk
  ProblemData pd; pd.constraints_.flag_ = f.flag; sym_state(pd, f); double T = sym::var("T", 0.25, 4.0);
  if (sym::choice("higher", 2)) { pd.c0_[2] = sym::var("z0", 0.0, 5.0); pd.c1_[2] = sym::var("z1", -5.0, -0.5); }
  Affs p = ref_points(pd, f, T), v = ref_derive(p, T), a = ref_derive(v, T), j = ref_derive(a, T);
  std::vector<point_t> pi = computeConstantWaypoints(pd, T); MatrixXX A; VectorX b; V3 bv(10000, 10000, 10000), ba = bv, bj = bv;
  if (api == 0) {
    if (sym::choice("solve", 2)) { answer_failure(); RefPath path; path.a = pd.c0_; path.b = pd.c1_ - pd.c0_; path.c = V3::Zero(); solveEndEffector(pd, path, T, 0.0); Problem& q = captured();
      sym::check("one problem, no equality", q.calls == 1 && q.D.rows() == 0 && q.lo.size() == 0 && q.hi.size() == 0); A = q.A; b = q.b; sym::reach("solve"); }
    else { std::pair<MatrixXX, VectorX> Ab = computeEndEffectorConstraints(pd, T, pi); A = Ab.first; b = Ab.second; }
  } else {
    bv = symvec("vmax", 0.1, 50.0); ba = symvec("amax", 0.1, 50.0); bj = symvec("jmax", 0.1, 50.0); VectorX xv = bv, xa = ba, xj = bj;
    std::vector<waypoint_t> wv = computeVelocityWaypoints(pd, T, pi), wa = computeAccelerationWaypoints(pd, T, pi);
    if (api == 1) computeConstraintsMatrix(pd, wa, wv, xa, xv, A, b, computeJerkWaypoints(pd, T, pi), xj); else computeConstraintsMatrix(pd, wa, wv, xa, xv, A, b);
  }
  string n = string(f.name) + (api == 0 ? " problem" : api == 1 ? " bounds" : " bounds without jerk"); int dim = 3 * f.nf;
  sym::check(n + ": sizes", A.cols() == dim && A.rows() == b.size());
  sym::Rows want; ee_rows(want, v, bv); ee_rows(want, a, ba); if (api != 2) ee_rows(want, j, bj);
  double z = pd.c0_[2] < pd.c1_[2] ? pd.c0_[2] : pd.c1_[2]; ee_ground(want, f.nf, z);
  sym::check_halfspaces(n, dim, to_rows(A, b), want);
  sym::reach(string("ee_") + f.name); sym::reach(I("api", api));
}
