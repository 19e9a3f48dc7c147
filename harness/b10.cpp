// B10: time sampling.
#include "common.h"
void harness_main() {
  int api = sym::choice("api", 2), nph = 1 + sym::choice("phases", 5); VectorX Ts(nph); double total = 0;
  if (api == 0) {
    unsigned n = 1 + sym::choice("points", 9);
    for (int i = 0; i < nph; i++) Ts(i) = sym::var(I("T", i), 0.01, 10.0);
    for (int i = 0; i < nph; i++) total = total + Ts(i);
    T_time g = computeDiscretizedTimeFixed(Ts, n);
    sym::check("fixed: number of samples", g.size() == n * nph + 1);
    sym::check_eq("fixed: first sample", g[0].first, 0.0); sym::check("fixed: first sample's phase", g[0].second == 0);
    double s = 0; size_t k = 1;
    for (int i = 0; i < nph; i++) { for (unsigned j = 1; j <= n; j++, k++) { sym::check_eq("fixed: instant", g[k].first, s + Ts(i) * j / n); sym::check("fixed: phase of a sample", g[k].second == i); } s = s + Ts(i); }
    for (k = 1; k < g.size(); k++) sym::check_le("fixed: increasing", g[k - 1].first, g[k].first);
    sym::check_eq("fixed: last sample", g.back().first, total, 1e-9); sym::reach(I("fixed", nph)); sym::reach(I("points", n));
  } else {
    double dt = sym::var("dt", 0.01, 1.0); int maxk = nph == 1 ? 7 : nph == 2 ? 5 : nph == 3 ? 3 : 2;
    // whole multiples of the step (exact in binary), or clearly between two multiples (so that rounding cannot matter)
    bool whole = sym::choice("whole", 2) == 1; if (whole) dt = 0.25;
    for (int i = 0; i < nph; i++) {
      int k = 2 + sym::choice(I("steps", i).c_str(), maxk - 1);
      if (whole) Ts(i) = k * dt; else Ts(i) = (k + sym::var(I("T", i), 0.01, 0.99)) * dt;
    }
    T_time g = computeDiscretizedTime(Ts, dt);
    size_t k = 0; double s = 0; bool ok = true;
    for (int i = 0; i < nph && ok; i++) {
      double e = s + Ts(i); int j = 0;
      while (k < g.size() && g[k].second == i) {
        size_t left = 0; for (size_t m = k; m < g.size() && g[m].second == i; m++) left++;
        if (left == 1) { sym::check_eq("step: a phase ends at its end", g[k].first, e, 1e-9); sym::check_le("step: every multiple of the step before the end is sampled", e, s + j * dt); k++; break; }
        sym::check_eq("step: instant", g[k].first, s + j * dt); sym::check_le("step: inside the phase", g[k].first, e); k++; j++;
      }
      sym::check("step: a phase has its start and its end", j >= 1); s = e;
    }
    sym::check("step: every sample belongs to a phase in order", k == g.size());
    for (size_t m = 1; m < g.size(); m++) sym::check_le("step: never decreases", g[m - 1].first, g[m].first);
    sym::check_eq("step: last sample", g.back().first, s, 1e-9); sym::reach(I("step", nph));
  }
}
