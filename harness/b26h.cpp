// B26: the answer to a request does not depend on an earlier request, in particular on one that differs from it in a single
// argument. The fresh answer is obtained first; then the library's static variables are put back to their initial contents.
#include "b26.h"
struct Req { int op; ProblemData p; VectorX Ts; std::vector<double> Tv; double dt; int pts; bool alt, path; double weight; };
static Snap go(const Req& r) {
  captured() = Problem(); int op = r.op, dim = op < 6 && op > 3 ? (r.p.useAngularMomentum_ ? 6 : 3) : op == 6 && (r.p.constraints_.flag_ & THREE_FREE_VAR) ? 9 : 3; ResultDataCOMTraj res; bool threw = false;
  answer().success_ = !r.alt; answer().cost_ = sym::var("cost", -10, 10); answer().x.resize(dim); for (int i = 0; i < dim; i++) answer().x(i) = sym::var(I("x", i), -8, 8);
  try {
    if (op < 2 || op == 8) res = computeCOMTraj(r.p, r.Ts, -1); else if (op == 2) res = computeCOMTraj(r.p, r.Ts, r.dt); else if (op == 3) res = computeCOMTrajFixedSize(r.p, r.Ts, r.pts); else if (op < 6) res = solve0step(r.p, r.Tv, r.dt);
    else { RefPath q; q.a = r.p.c0_; q.b = r.p.c1_ - r.p.c0_; q.c = r.path ? V3(1, 2, 3) : V3(0, 0, 0); res = solveEndEffector(r.p, q, r.Tv[0], r.weight); }
  } catch (const std::exception&) { threw = true; }
  return record(res, threw);
}
enum { C0 = 0, L0 = 8, KIN = 9, KINB, ANG, MASS, CONE, GEN, ACC, AMAX, MARGIN, FLAG, COST, REP, MOMENTUM, SPLIT, TOTAL, GRID, ANSWER, COUNT, KIN0, PATH, WEIGHT, NCOMP };
static const char* NAME[NCOMP] = {"c0", "dc0", "ddc0", "j0", "c1", "dc1", "ddc1", "j1", "l0", "kinematic normals", "kinematic bounds", "angular limits", "mass", "cone", "generators", "acceleration flag", "acceleration bound", "margin", "boundary flags", "cost", "representation", "momentum flag", "phase durations", "total duration", "grid", "answer", "number of phases", "first phase's limits", "path", "weight"};
static bool relevant(int op, int k) {
  bool com = op < 4 || op == 8, zero = op == 4 || op == 5;
  if (k < L0) return op == 6 || (com && k != 3 && k != 7) || (zero && k < 2);
  switch (k) {
    case L0: return op == 5; case KIN: case KINB: return op != 6; case ANG: return op == 5; case MASS: case FLAG: return !(op == 6 && k == MASS) && !(zero && k == FLAG); case CONE: return com ? op != 1 : zero; case GEN: return op == 1;
    case ACC: case AMAX: case COST: return com; case MARGIN: return com && op != 1; case REP: return op < 2 || op == 8; case MOMENTUM: return zero; case SPLIT: case KIN0: return com; case TOTAL: case ANSWER: return true; case GRID: return op >= 2 && op < 6; case COUNT: return com; case PATH: case WEIGHT: return op == 6;
  } return false;
}
// the request with one argument changed, in place
static void change(Req& r, int k) {
  V3* t[9] = {&r.p.c0_, &r.p.dc0_, &r.p.ddc0_, &r.p.j0_, &r.p.c1_, &r.p.dc1_, &r.p.ddc1_, &r.p.j1_, &r.p.l0_}; if (k <= L0) { *t[k] = symvec("other", -5, 5); return; }
  ContactData& c = k == KIN0 ? r.p.contacts_[0] : r.p.contacts_.back(); Constraints& q = r.p.constraints_;
  switch (k) {
    case KIN: for (int j = 0; j < 3; j++) c.Kin_(0, j) = sym::var(I("otherK", j), 0.25, 2); break;
    case KIN0: case KINB: c.kin_(0) = sym::var("otherk", -5, 5); break;
    case ANG: c.Ang_ = MatrixX3::Ones(2, 3); c.ang_ = VectorX::Ones(2); break;
    case MASS: const_cast<double&>(c.contactPhase_->m_mass) = sym::var("othermass", 1, 90); break;
    case CONE: { StubContact s; s.mass = 1; s.h = Eigen::VectorXd::Zero(1); s.H = cone(7, 1); s.H *= -1.0; s.G = Eigen::MatrixXd::Zero(6, 0); make_stub_contact(r.p.contacts_.size() == 1 ? "p0phase0" : r.p.contacts_.size() == 2 ? "p0phase1" : "p0phase2", s); break; }
    case GEN: c.contactPhase_->m_G_centr(2, 1) = sym::var("otherG", -2, 2); break;
    case ACC: q.constraintAcceleration_ = !q.constraintAcceleration_; break; case AMAX: q.maxAcceleration_ = sym::var("otheramax", 1, 20); break; case MARGIN: q.reduce_h_ = q.reduce_h_ > 0 ? 0.0 : 0.25; break;
    case FLAG: q.flag_ = r.op == 6 ? jerk_flags()[0].flag : q.flag_ == com_flags()[2].flag ? com_flags()[4].flag : com_flags()[2].flag; break;
    case COST: r.p.costFunction_ = r.p.costFunction_ == ACCELERATION ? DISTANCE_TRAVELED : ACCELERATION; break; case REP: r.p.representation_ = r.p.representation_ == FORCE ? DOUBLE_DESCRIPTION : FORCE; break; case MOMENTUM: r.p.useAngularMomentum_ = !r.p.useAngularMomentum_; break;
    case SPLIT: { double a = r.Ts(0); r.Ts(0) = r.Ts(1); r.Ts(1) = a; break; }
    case TOTAL: r.Tv[0] = r.op == 2 ? 2.5 : sym::var("otherT", 1, 4); for (long i = 0, n = r.Ts.size(); i < n; i++) r.Ts(i) = (i + 1 < n ? (i ? 0.25 : 0.375) : n == 3 ? 0.375 : n == 2 ? 0.625 : 1.0) * r.Tv[0]; break;
    case GRID: r.dt = r.op == 2 ? 0.3 : 0.25; r.pts = 3; break; case ANSWER: r.alt = true; break; case PATH: r.path = true; break; case WEIGHT: r.weight = 0.0; break;
    case COUNT: if (r.p.contacts_.size() > 1) { r.p.contacts_.pop_back(); r.Ts(r.Ts.size() - 2) += r.Ts(r.Ts.size() - 1); r.Ts.conservativeResize(r.Ts.size() - 1); } break;
  }
}
static void originals(const Req& r) { for (size_t i = 0; i < r.p.contacts_.size(); i++) make_stub_contact(I("p0phase", i), stubs[0][i]); }
void harness_main() {
  sym::generic_eq(true); int which = sym::choice("call", 8), op = which == 7 ? 8 : which; std::vector<int> ks; for (int k = 0; k < NCOMP; k++) if (relevant(op, k)) ks.push_back(k);
  int k = ks[sym::choice("changed", (int)ks.size())]; Req r; r.op = op; r.alt = r.path = false; r.weight = 0.5; r.pts = 2; r.dt = op == 2 ? 0.25 : -1.0;
  r.p = problem(op, 0, op == 8 ? 3 : op < 4 ? 2 : 1); if (op < 4) r.p.constraints_.flag_ = com_flags()[op == 0 ? 0 : op == 3 ? 1 : 2].flag; if (op == 0 || op == 3) r.p.dc1_ = symvec("p0dc1", -5, 5);
  double T = op == 2 ? 1.6 : sym::var("T0", 1.0, 4.0); r.Tv.assign(1, T); int n = r.p.contacts_.size(); r.Ts.resize(n); double used = 0; for (int i = 0; i + 1 < n; i++) { r.Ts(i) = (i ? 0.25 : 0.375) * T; used = used + r.Ts(i); } r.Ts(n - 1) = T - used;
  string at = string(OP[op]) + " after a call with other " + NAME[k]; std::string clean = sym::save_statics();
  Snap fresh = go(r); sym::restore_statics(clean);
  Req o = r; for (auto& c : o.p.contacts_) c.contactPhase_ = new centroidal_dynamics::Equilibrium(*c.contactPhase_); change(o, k); go(o); originals(r); same(at, fresh, go(r)); sym::restore_statics(clean);
  // the same objects, changed and changed back
  ProblemData keep(r.p); VectorX Ts = r.Ts; Req s = r; std::vector<ContactData> last(1, r.p.contacts_.back()); centroidal_dynamics::Equilibrium* e = r.p.contacts_.back().contactPhase_; double mass = e->m_mass; auto G = e->m_G_centr;
  if (k == COUNT) return (void)sym::reach(I("history", op));
  change(r, k); go(r); originals(r); const_cast<double&>(e->m_mass) = mass; e->m_G_centr = G;
  for (size_t i = 0; i < keep.contacts_.size(); i++) { r.p.contacts_[i].Kin_ = keep.contacts_[i].Kin_; r.p.contacts_[i].kin_ = keep.contacts_[i].kin_; r.p.contacts_[i].Ang_ = keep.contacts_[i].Ang_; r.p.contacts_[i].ang_ = keep.contacts_[i].ang_; }
  r.p.c0_ = keep.c0_; r.p.dc0_ = keep.dc0_; r.p.ddc0_ = keep.ddc0_; r.p.j0_ = keep.j0_; r.p.c1_ = keep.c1_; r.p.dc1_ = keep.dc1_; r.p.ddc1_ = keep.ddc1_; r.p.j1_ = keep.j1_; r.p.l0_ = keep.l0_; r.p.constraints_ = keep.constraints_; r.p.costFunction_ = keep.costFunction_; r.p.representation_ = keep.representation_; r.p.useAngularMomentum_ = keep.useAngularMomentum_;
  r.Ts = Ts; r.Tv = s.Tv; r.dt = s.dt; r.pts = s.pts; r.alt = s.alt; r.path = s.path; r.weight = s.weight; same(at + " on the same objects", fresh, go(r)); sym::reach(I("history", op)); sym::reach(I("component", k));
}
