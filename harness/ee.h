// Reference model of the end-effector problems (curves constrained up to the jerk, 1, 3 or 5 free points).
#pragma once
#include "capture.h"
#include <hpp/bezier-com-traj/solve_end_effector.hh>
struct RefPath { V3 a, b, c; V3 operator()(double t) const { return a + t * b + (t * t) * c; } };   // arbitrary quadratic reference path
inline void aff_row(sym::Rows& out, const Aff& w, int axis, double sign, double bound) {   // sign * w[axis] <= bound
  sym::Row r(3 * w.k.size() + 1, 0.0); for (size_t i = 0; i < w.k.size(); i++) r[3 * i + axis] = sign * w.k[i]; r.back() = bound - sign * w.c[axis]; out.push_back(r);
}
inline bool depends(const Aff& w) { for (double k : w.k) if (!sym::is_zero(k)) return true; return false; }
inline void ee_rows(sym::Rows& out, const Affs& p, const V3& bound) { for (const Aff& w : p) if (depends(w)) for (int a = 0; a < 3; a++) { aff_row(out, w, a, 1.0, bound[a]); aff_row(out, w, a, -1.0, bound[a]); } }
inline void ee_ground(sym::Rows& out, int nf, double z) { for (int i = 0; i < nf; i++) { sym::Row r(3 * nf + 1, 0.0); r[3 * i + 2] = -1.0; r.back() = -z; out.push_back(r); } }
