// B05: computeFinalVelocityPoint is c'(T).
#include "common.h"
void harness_main() {
  std::vector<FlagSet> fs = com_flags();
  const FlagSet f = fs[sym::choice("flag", (int)fs.size())];
  ProblemData pd; pd.constraints_.flag_ = f.flag; sym_state(pd, f); double T = sym::var("T", 0.125, 8.0);
  coefs_t v = computeFinalVelocityPoint(pd, T);
  Aff r = ref_eval(ref_derive(ref_points(pd, f, T), T), 1.0);
  sym::check_eq(string(f.name) + ": coefficient of x", v.first, r.k[0]);
  check_vec(string(f.name) + ": constant part", v.second, r.c);
  sym::reach(string("vel_") + f.name);
}
