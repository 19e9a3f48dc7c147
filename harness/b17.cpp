// B17: velocity / acceleration / jerk of the end-effector curves (jerk-constrained flags):
// control points and evaluations are the exact derivatives of the position curve.
#include "common.h"
static void cmp(const string& n, const waypoint_t& w, const Aff& r, int nf) {
  sym::check(n + ": sizes", w.first.rows() == 3 && w.first.cols() == 3 * nf && w.second.size() == 3);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3 * nf; j++) sym::check_eq(n + ": matrix", w.first(i, j), j % 3 == i ? r.k[j / 3] : 0.0);
  check_vec(n + ": constant", w.second, r.c);
}
void harness_main() {
  std::vector<FlagSet> fs = jerk_flags(); const FlagSet f = fs[sym::choice("flag", 3)];
  int ord = 1 + sym::choice("order", 3), api = sym::choice("api", 3);
  ProblemData pd; pd.constraints_.flag_ = f.flag; sym_state(pd, f); double T = sym::var("T", 0.125, 8.0);
  const char* on[4] = {"", "velocity", "acceleration", "jerk"};
  if (api == 2) {   // evaluation at time t of arbitrary constant points
    double t = sym::var("t", 0.0, 1.0); Affs ref(f.npts(), Aff(f.nf)); std::vector<point_t> pi;
    for (int i = 0; i < f.npts(); i++) if (i >= f.ni && i < f.ni + f.nf) { pi.push_back(point_t::Zero()); ref[i].k[i - f.ni] = 1.0; } else { pi.push_back(symvec(I("p", i), -5, 5)); ref[i].c = pi.back(); }
    for (int i = 0; i < ord; i++) ref = ref_derive(ref, T);
    string n = string(f.name) + " " + on[ord] + " evaluation"; waypoint_t w;
    try {
      w = ord == 1 ? evaluateVelocityCurveWaypointAtTime(pd, T, pi, t) : ord == 2 ? evaluateAccelerationCurveWaypointAtTime(pd, T, pi, t) : evaluateJerkCurveWaypointAtTime(pd, T, pi, t);
    } catch (std::exception& e) { sym::reach("eval_unavailable"); sym::note(n + " refused: " + e.what()); return; }
    cmp(n, w, ref_eval(ref, t), f.nf); sym::reach(string("eval_") + on[ord] + "_" + f.name); return;
  }
  Affs ref = ref_points(pd, f, T); std::vector<point_t> pi; if (api == 1) pi = computeConstantWaypoints(pd, T);
  for (int i = 0; i < ord; i++) ref = ref_derive(ref, T);
  std::vector<waypoint_t> w = ord == 1 ? computeVelocityWaypoints(pd, T, pi) : ord == 2 ? computeAccelerationWaypoints(pd, T, pi) : computeJerkWaypoints(pd, T, pi);
  string n = string(f.name) + " " + on[ord] + " waypoints";
  sym::check(n + ": number of control points", w.size() == ref.size());
  for (size_t i = 0; i < ref.size(); i++) cmp(n + " " + std::to_string(i), w[i], ref[i], f.nf);
  sym::reach(string("wp_") + on[ord] + "_" + f.name);
}
