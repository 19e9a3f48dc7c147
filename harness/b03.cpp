// B03: evaluateAccelerationCurveAtTime is the second time derivative of the position curve.
#include "common.h"
void harness_main() {
  std::vector<FlagSet> fs = com_flags(); fs.push_back(jerk_flags()[0]);
  const FlagSet f = fs[sym::choice("flag", (int)fs.size())];
  ProblemData pd; pd.constraints_.flag_ = f.flag;
  double t = sym::var("t", 0.0, 1.0), T = sym::var("T", 0.125, 8.0);
  std::vector<point_t> pi; Affs ref(f.npts(), Aff(1));
  for (int i = 0; i < f.npts(); i++) {
    bool fr = (i >= f.ni && i < f.ni + f.nf) || (f.stop && i == f.deg());
    if (fr) { pi.push_back(point_t::Zero()); ref[i].k[0] = 1.0; }
    else { pi.push_back(symvec(I("p", i), -5, 5)); ref[i].c = pi.back(); }
  }
  Aff r = ref_eval(ref_derive(ref_derive(ref, T), T), t);
  coefs_t w = evaluateAccelerationCurveAtTime(pd, pi, T, t);
  sym::check_eq(string(f.name) + ": coefficient of x", w.first, r.k[0]);
  check_vec(string(f.name) + ": constant part", w.second, r.c);
  sym::reach(string("acc_") + f.name);
}
