// B27: every supported request, at every size of its data, stays within memory it owns and uses no uninitialised value.
// Built with AddressSanitizer: any access outside live memory on any explored path is a violation (see engine/build.py).
#include "rows.h"
#include "ee.h"
static ContactData phase(int id, int cone_rows, int kin, int ang, int gens) {
  StubContact s; s.mass = 50.0 + id; s.H = cone(id, cone_rows); s.h = Eigen::VectorXd::Zero(cone_rows); s.G.resize(6, gens); for (int a = 0; a < 6; a++) for (int b = 0; b < gens; b++) s.G(a, b) = 0.25 * (a + 1) - b;
  ContactData c(make_stub_contact(I("phase", id), s)); MatrixX3* M[2] = {&c.Kin_, &c.Ang_}; VectorX* v[2] = {&c.kin_, &c.ang_}; int n[2] = {kin, ang};
  for (int k = 0; k < 2; k++) { *M[k] = MatrixX3::Zero(n[k], 3); *v[k] = VectorX::Zero(n[k]); for (int i = 0; i < n[k]; i++) { for (int j = 0; j < 3; j++) (*M[k])(i, j) = 1.0 + i - 0.5 * j; (*v[k])(i) = 3.0 + i; } }
  return c;
}
static void clean(const string& w, const Eigen::MatrixXd& m) { for (long i = 0; i < m.rows(); i++) for (long j = 0; j < m.cols(); j++) sym::check(w + ": holds no uninitialised value", !sym::is_poison(m(i, j))); }
static void problem_ok(const string& n, int dim) {
  Problem& q = captured(); sym::check(n + ": one call of the optimiser", q.calls == 1); sym::check(n + ": consistent sizes", q.A.rows() == q.b.size() && q.D.rows() == q.d.size() && q.A.cols() == dim && (q.D.rows() == 0 || q.D.cols() == dim) && q.H.rows() == dim && q.H.cols() == dim && q.g.size() == dim && q.init.size() == dim && (q.lo.size() == 0 || q.lo.size() == dim) && (q.hi.size() == 0 || q.hi.size() == dim));
  clean(n + ": A", q.A); clean(n + ": b", q.b); clean(n + ": D", q.D); clean(n + ": d", q.d); clean(n + ": H", q.H); clean(n + ": g", q.g); clean(n + ": initial guess", q.init); clean(n + ": lower bounds", q.lo); clean(n + ": upper bounds", q.hi);
}
static void result_ok(const string& n, const ResultDataCOMTraj& r, bool ok) {
  sym::check(n + ": success", r.success_ == ok); clean(n + ": x", r.x); sym::check(n + ": cost", !sym::is_poison(r.cost_)); if (!ok) return;
  const bezier_t* c[2] = {&r.c_of_t_, &r.dL_of_t_}; for (int k = 0; k < 2; k++) { clean(n + ": curve", V3(c[k]->min(), c[k]->max(), 0)); for (auto& p : c[k]->waypoints()) clean(n + ": curve", p); V3 v = (*c[k])(0.5 * c[k]->max()); clean(n + ": curve value", v); }
  clean(n + ": final derivatives", r.dc1_); clean(n + ": final derivatives", r.ddc1_);
}
// requests whose optional parts are left as the library's constructors made them
static void unset() {
  int what = sym::choice("unset", 6); ProblemData p; StubContact s; s.mass = 50.0; s.H = cone(0, 2); s.h = Eigen::VectorXd::Zero(2); s.G.resize(6, 2); for (int a = 0; a < 6; a++) for (int b = 0; b < 2; b++) s.G(a, b) = 0.25 * (a + 1) - b; ResultDataCOMTraj r; string n = I("defaults ", what);
  if (what == 5) { ContactData a; ContactData b(a); std::vector<ContactData> v; v.push_back(a); v.push_back(b); a = v[1]; sym::check(n + ": copies of an empty contact", !b.contactPhase_ && !v[0].contactPhase_ && b.kin_.size() == 0 && a.ang_.size() == 0); sym::reach(I("defaults", what)); return; }
  p.contacts_.push_back(ContactData(make_stub_contact("phase", s))); bool ok = true; VectorX Ts(1); Ts << 2.25;   // no limits were set: Kin_, kin_, Ang_ and ang_ are the constructor's
  p.c0_ = symvec("c0", -5, 5); std::vector<double> Tv(1, 2.25);
  if (what == 4) { p.useAngularMomentum_ = true; } answer_success(what == 4 ? 6 : 3);
  if (what == 0) r = computeCOMTrajFixedSize(p, Ts, 3); else if (what == 1) r = computeCOMTraj(p, Ts, 0.2); else if (what == 2) r = computeCOMTraj(p, Ts, -1); else r = solve0step(p, Tv, -1);
  problem_ok(n, captured().g.size()); result_ok(n, r, ok); sym::reach(I("defaults", what));
}
void harness_main() {
  sym::generic_eq(true); int kind = sym::choice("kind", 4); ProblemData p; if (kind == 3) return unset(); V3* st[8] = {&p.dc0_, &p.ddc0_, &p.j0_, &p.c1_, &p.dc1_, &p.ddc1_, &p.j1_, &p.l0_}; for (int i = 0; i < 8; i++) *st[i] = V3(0.25 + 0.125 * i, 1.0 - 0.25 * i, 0.5 * i - 1.125);
  p.c0_ = symvec("c0", -5, 5); bool ok = true;
  if (kind == 0) {   // centre of mass trajectories
    std::vector<FlagSet> fs = com_flags(); fs.push_back(jerk_flags()[0]); const FlagSet f = fs[sym::choice("flag", (int)fs.size())]; p.constraints_.flag_ = f.flag; if (f.stop) p.dc1_ = V3::Zero();
    int api = sym::choice("api", 4), ph = 1 + sym::choice("phases", 4), shape = sym::choice("shape", 4), acc = (ph + shape) % 2; ok = ph == 1 ? sym::choice("solved", 2) == 0 : (ph + shape) % 3 != 0; p.constraints_.constraintAcceleration_ = acc; p.costFunction_ = shape % 2 ? DISTANCE_TRAVELED : ACCELERATION; if (api == 1) p.representation_ = FORCE;
    static const int C[4][4] = {{0, 0, 0, 0}, {1, 2, 1, 2}, {3, 1, 0, 2}, {2, 2, 3, 3}}, K[4][4] = {{0, 0, 0, 0}, {2, 1, 2, 1}, {0, 3, 1, 0}, {1, 0, 0, 4}}, G[4][4] = {{1, 1, 1, 1}, {1, 2, 3, 2}, {3, 2, 1, 3}, {2, 2, 1, 2}};
    for (int i = 0; i < ph; i++) p.contacts_.push_back(phase(i, C[shape][i], K[shape][i], 0, G[shape][i]));
    VectorX Ts(ph); double T = 2.0 + 0.25 * ph, used = 0; for (int i = 0; i + 1 < ph; i++) { Ts(i) = 0.25 * T; used = used + Ts(i); } Ts(ph - 1) = T - used; string n = string(f.name) + I(" api ", api) + I(", phases ", ph) + I(", shape ", shape);
    if (ok) answer_success(3); else answer_failure(); VectorX Tc(ph); for (int i = 0; i < ph; i++) Tc(i) = 0.5 + 0.25 * i; ResultDataCOMTraj r;
    if (api < 2) r = computeCOMTraj(p, Ts, -1); else if (api == 2) r = computeCOMTraj(p, Tc, 0.2); else r = computeCOMTrajFixedSize(p, Ts, 1 + shape);
    problem_ok(n, captured().g.size()); result_ok(n, r, ok); sym::reach(ok ? "solved" : "failure"); sym::reach(I("com", api)); sym::reach(I("phases", ph)); sym::reach(string("mem_") + f.name);
  } else if (kind == 1) {   // zero step capturability
    int am = sym::choice("momentum", 2), disc = sym::choice("steps", 5), c = sym::choice("cone", 4), k = sym::choice("kin", 3), a = sym::choice("ang", 3); ok = (disc + c + k + a) % 3 != 1; p.useAngularMomentum_ = am; p.contacts_.push_back(phase(0, c, k, a, 1)); if (ok) answer_success(am ? 6 : 3); else answer_failure();
    double T = 2.25; ResultDataCOMTraj r = solve0step(p, std::vector<double>(1, T), disc == 0 ? -1.0 : disc == 4 ? 1.5 * T : T / (disc + 0.5)); string n = I("zero step ", disc); problem_ok(n, am ? 6 : 3); result_ok(n, r, ok); sym::reach(I("zero", disc));
  } else {   // end effector
    std::vector<FlagSet> fs = jerk_flags(); const FlagSet f = fs[sym::choice("flag", 3)]; ok = sym::choice("solved", 2) == 0; p.constraints_.flag_ = f.flag; if (ok) answer_success(3 * f.nf); else answer_failure(); int w = sym::choice("weight", 3); RefPath path; path.a = p.c0_; path.b = p.c1_; path.c = p.c0_;
    ResultDataCOMTraj r = solveEndEffector(p, path, 2.25, 0.5 * w, w != 1); problem_ok(f.name, 3 * f.nf); result_ok(f.name, r, ok); sym::reach(string("foot_") + f.name);
  }
}
