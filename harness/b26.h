// Shared by the B26 harnesses: requests, calls and their observable outcome.
#pragma once
#include "rows.h"
#include "ee.h"
#include <hpp/bezier-com-traj/common_solve_methods.hh>
struct Snap { std::vector<double> v; std::vector<long> i; };
static void num(Snap& s, const Eigen::MatrixXd& m) { s.i.push_back(m.rows()); s.i.push_back(m.cols()); for (long c = 0; c < m.cols(); c++) for (long r = 0; r < m.rows(); r++) s.v.push_back(m(r, c)); }
static Snap snap(const ProblemData& p, const VectorX& Ts, const std::vector<double>& Tv, bool who = true) {
  Snap s; const V3* t[9] = {&p.c0_, &p.dc0_, &p.ddc0_, &p.j0_, &p.c1_, &p.dc1_, &p.ddc1_, &p.j1_, &p.l0_}; for (int i = 0; i < 9; i++) num(s, *t[i]);
  s.i.push_back(p.useAngularMomentum_); s.i.push_back(p.costFunction_); s.i.push_back(p.representation_); s.i.push_back(p.constraints_.flag_); s.i.push_back(p.constraints_.constraintAcceleration_);
  s.v.push_back(p.constraints_.maxAcceleration_); s.v.push_back(p.constraints_.reduce_h_);
  for (auto& c : p.contacts_) { num(s, c.Kin_); num(s, c.kin_); num(s, c.Ang_); num(s, c.ang_); if (who) s.i.push_back((long)c.contactPhase_); s.v.push_back(c.contactPhase_->m_mass); num(s, c.contactPhase_->m_gravity); num(s, c.contactPhase_->m_G_centr); s.i.push_back(c.contactPhase_->getAlgorithm()); }
  num(s, Ts); for (double d : Tv) s.v.push_back(d); return s;
}
static void same(const string& w, const Snap& a, const Snap& b) { sym::check(w + ": structure unchanged", a.i == b.i && a.v.size() == b.v.size()); for (size_t k = 0; k < a.v.size(); k++) sym::check_eq(w + ": value " + std::to_string(k) + " unchanged", a.v[k], b.v[k]); }
static Snap record(const ResultDataCOMTraj& r, bool threw) {
  Snap s; Problem& q = captured(); s.i.push_back(q.calls); s.i.push_back(threw); if (q.calls) { num(s, q.A); num(s, q.b); num(s, q.D); num(s, q.d); num(s, q.H); num(s, q.g); num(s, q.init); num(s, q.lo); num(s, q.hi); s.i.push_back(q.solver); }
  if (threw) return s;
  s.i.push_back(r.success_); s.v.push_back(r.cost_); num(s, r.x); num(s, r.dc1_); num(s, r.ddc1_); const bezier_t* c[2] = {&r.c_of_t_, &r.dL_of_t_}; for (int k = 0; k < 2; k++) { s.v.push_back(c[k]->min()); s.v.push_back(c[k]->max()); for (auto& p : c[k]->waypoints()) num(s, p); }
  return s;
}
static const int NOPS = 9;
static const char* OP[NOPS] = {"continuous", "force", "time step", "fixed size", "zero step", "zero step with momentum", "foot", "refused", "three phases"};
static std::vector<StubContact> stubs[3];
static ProblemData problem(int op, int name, int phases = 0) {
  int who = name % 2; stubs[name].clear(); // problem 2 is laid out like problem 0
  ProblemData p; string s = I("p", name); const char* nm[9] = {"c0", "dc0", "ddc0", "j0", "c1", "dc1", "ddc1", "j1", "l0"}; V3* t[9] = {&p.c0_, &p.dc0_, &p.ddc0_, &p.j0_, &p.c1_, &p.dc1_, &p.ddc1_, &p.j1_, &p.l0_};
  for (int i = 0; i < 9; i++) *t[i] = symvec(s + nm[i], -5, 5);
  int n = phases ? phases : op == 8 ? 3 : op < 4 ? 1 + (op + who) % 2 : 1;
  if (op < 4 || op == 8) { std::vector<FlagSet> f = com_flags(); int fi = op == 8 ? who : (op + 3 * who + 2) % 7; p.constraints_.flag_ = f[fi].flag; p.costFunction_ = (op + who) % 2 ? DISTANCE_TRAVELED : ACCELERATION; p.constraints_.constraintAcceleration_ = op != 2; p.constraints_.maxAcceleration_ = sym::var(s + "amax", 1, 20); p.constraints_.reduce_h_ = who ? 0.25 : 0.0; if (op == 1) p.representation_ = FORCE; if (f[fi].stop) p.dc1_ = V3::Zero(); }
  if (op == 6) p.constraints_.flag_ = jerk_flags()[who == 0 ? 1 : 2].flag; if (op == 7) p.constraints_.flag_ = INIT_POS | END_ACC; p.useAngularMomentum_ = op == 5;
  for (int i = 0; i < n; i++) {
    StubContact c; c.mass = who ? 50.0 + i : sym::var(s + I("mass", i), 1.0, 90.0); c.H = cone(i + who, 1); c.h = Eigen::VectorXd::Zero(1); c.G.resize(6, 2); for (int a = 0; a < 6; a++) for (int b = 0; b < 2; b++) c.G(a, b) = sym::var(s + "G" + std::to_string(i) + std::to_string(a) + std::to_string(b), -2, 2);
    if (name == 2) c.H = cone(i + 3, 1); stubs[name].push_back(c);
    ContactData d(make_stub_contact(s + I("phase", i), c)); d.Kin_ = MatrixX3::Zero(1, 3); d.kin_ = VectorX::Zero(1); for (int j = 0; j < 3; j++) d.Kin_(0, j) = who ? 1.0 + j : sym::var(s + I("K", i) + I("_", j), 0.25, 2); d.kin_(0) = sym::var(s + I("k", i), -5, 5);
    d.Ang_ = MatrixX3::Zero(1, 3); d.Ang_(0, 0) = 1.0; d.Ang_(0, 2) = who ? -1.0 : 2.0; d.ang_ = VectorX::Zero(1); d.ang_(0) = sym::var(s + I("ang", i), -5, 5); p.contacts_.push_back(d); const ContactData& e = p.contacts_.back();
    sym::check("a copied phase keeps its sizes", e.Kin_.rows() == 1 && e.kin_.size() == 1 && e.Ang_.rows() == 1 && e.ang_.size() == 1 && e.contactPhase_->m_G_centr.cols() == 2); sym::check_eq("a copied phase keeps its mass", e.contactPhase_->m_mass, c.mass); sym::check_eq("a copied phase keeps its bound", e.kin_(0), d.kin_(0)); sym::check_eq("a copied phase keeps its angular bound", e.ang_(0), d.ang_(0));
    for (int j = 0; j < 3; j++) { sym::check_eq("a copied phase keeps its normals", e.Kin_(0, j), d.Kin_(0, j)); sym::check_eq("a copied phase keeps its angular normals", e.Ang_(0, j), d.Ang_(0, j)); }
  }
  return p;
}
static Snap call(int op, const ProblemData& p, const VectorX& Ts, const std::vector<double>& Tv, double dt) {
  captured() = Problem(); int dim = op == 5 ? 6 : op == 6 ? (p.constraints_.flag_ & THREE_FREE_VAR ? 9 : 15) : 3; ResultDataCOMTraj r; bool threw = false;
  answer().success_ = true; answer().cost_ = sym::var("cost", -10, 10); answer().x.resize(dim); for (int i = 0; i < dim; i++) answer().x(i) = sym::var(I("x", i), -8, 8);
  try {
    if (op < 2 || op == 7 || op == 8) r = computeCOMTraj(p, Ts, -1); else if (op == 2) r = computeCOMTraj(p, Ts, dt); else if (op == 3) r = computeCOMTrajFixedSize(p, Ts, 2); else if (op < 6) r = solve0step(p, Tv, -1);
    else { RefPath path; path.a = p.c0_; path.b = p.c1_ - p.c0_; path.c = V3::Zero(); r = solveEndEffector(p, path, Tv[0], 0.0); }
  } catch (const std::exception&) { threw = true; }
  return record(r, threw);
}
