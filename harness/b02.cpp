// B02: evaluation of the position curve equals the Bezier curve of the given control points.
#include "common.h"
static void points(const FlagSet& f, std::vector<point_t>& pi, Affs& ref) {
  ref.assign(f.npts(), Aff(f.nf)); pi.clear();
  for (int i = 0; i < f.npts(); i++) {
    if (i >= f.ni && i < f.ni + f.nf) { pi.push_back(point_t::Zero()); ref[i].k[i - f.ni] = 1.0; }
    else if (f.stop && i == f.deg()) { pi.push_back(point_t::Zero()); ref[i].k[0] = 1.0; }
    else { pi.push_back(symvec(I("p", i), -5, 5)); ref[i].c = pi.back(); }
  }
}
void harness_main() {
  std::vector<FlagSet> fs = com_flags(), js = jerk_flags(); fs.insert(fs.end(), js.begin(), js.end());
  int k = sym::choice("flag", (int)fs.size()); const FlagSet f = fs[k];
  ProblemData pd; pd.constraints_.flag_ = f.flag;
  double t = sym::var("t", 0.0, 1.0);
  std::vector<point_t> pi; Affs ref; points(f, pi, ref); Aff r = ref_eval(ref, t);
  int api = k < 7 ? 0 : k == 7 ? sym::choice("api", 2) : 1;
  if (api == 0) {
    coefs_t w = evaluateCurveAtTime(pd, pi, t);
    sym::check_eq(string(f.name) + ": coefficient of x", w.first, r.k[0]);
    check_vec(string(f.name) + ": constant part", w.second, r.c);
    sym::reach(string("eval_") + f.name);
  } else {
    waypoint_t w = evaluateCurveWaypointAtTime(pd, pi, t);
    sym::check(string(f.name) + ": sizes", w.first.rows() == 3 && w.first.cols() == 3 * f.nf && w.second.size() == 3);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3 * f.nf; j++)
      sym::check_eq(string(f.name) + ": waypoint matrix", w.first(i, j), j % 3 == i ? r.k[j / 3] : 0.0);
    check_vec(string(f.name) + ": waypoint constant part", w.second, r.c);
    sym::reach(string("evalwp_") + f.name);
  }
}
