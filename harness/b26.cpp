// B26: what a call does depends on its arguments only (no state kept between calls) and its arguments stay as they were.
#include "b26.h"
void harness_main() {
  sym::generic_eq(true); int a = sym::choice("first", NOPS), b = sym::choice("second", NOPS); ProblemData p[2] = {problem(a, 0), problem(b, 1)}; VectorX Ts[2]; std::vector<double> Tv[2]; double dt[2]; int op[2] = {a, b};
  for (int w = 0; w < 2; w++) {
    int n = p[w].contacts_.size(); double T = op[w] == 2 ? 1.6 + 0.4 * w : w ? 2.0 : sym::var(I("T", w), 1.0, 4.0); Tv[w].assign(1, T); Ts[w].resize(n); double used = 0; for (int i = 0; i + 1 < n; i++) { Ts[w](i) = (i ? 0.25 : 0.375) * T; used = used + Ts[w](i); } Ts[w](n - 1) = T - used; dt[w] = 0.25;
  }
  Snap in[2] = {snap(p[0], Ts[0], Tv[0]), snap(p[1], Ts[1], Tv[1])};
  Snap r1 = call(a, p[0], Ts[0], Tv[0], dt[0]), q1 = call(b, p[1], Ts[1], Tv[1], dt[1]), r2 = call(a, p[0], Ts[0], Tv[0], dt[0]), r3 = call(a, p[0], Ts[0], Tv[0], dt[0]), q2 = call(b, p[1], Ts[1], Tv[1], dt[1]);
  string n = string(OP[a]) + " and " + OP[b]; same(n + ": first call repeated after another", r1, r2); same(n + ": first call repeated at once", r1, r3); same(n + ": second call repeated after others", q1, q2);
  for (int w = 0; w < 2; w++) same(n + ": arguments", in[w], snap(p[w], Ts[w], Tv[w]));
  // the same objects with other contents
  ProblemData m = problem(a, 2); Snap r5 = call(a, m, Ts[0], Tv[0], dt[0]); ProblemData& z = p[0]; ProblemData old(z); // (a copy holds its own phases)
  std::vector<centroidal_dynamics::Equilibrium*> ph; for (size_t k = 0; k < z.contacts_.size(); k++) { ph.push_back(z.contacts_[k].contactPhase_); make_stub_contact(I("p0phase", k), stubs[2][k]); ph[k]->m_G_centr = m.contacts_[k].contactPhase_->m_G_centr; const_cast<double&>(ph[k]->m_mass) = m.contacts_[k].contactPhase_->m_mass; z.contacts_[k].Kin_ = m.contacts_[k].Kin_; z.contacts_[k].kin_ = m.contacts_[k].kin_; z.contacts_[k].Ang_ = m.contacts_[k].Ang_; z.contacts_[k].ang_ = m.contacts_[k].ang_; }
  { V3* t[9] = {&z.c0_, &z.dc0_, &z.ddc0_, &z.j0_, &z.c1_, &z.dc1_, &z.ddc1_, &z.j1_, &z.l0_}; V3* f[9] = {&m.c0_, &m.dc0_, &m.ddc0_, &m.j0_, &m.c1_, &m.dc1_, &m.ddc1_, &m.j1_, &m.l0_}; for (int i = 0; i < 9; i++) *t[i] = *f[i]; } z.constraints_.maxAcceleration_ = m.constraints_.maxAcceleration_;
  Snap r6 = call(a, z, Ts[0], Tv[0], dt[0]); same(n + ": same objects with other contents", r5, r6);
  { V3* t[9] = {&z.c0_, &z.dc0_, &z.ddc0_, &z.j0_, &z.c1_, &z.dc1_, &z.ddc1_, &z.j1_, &z.l0_}; V3* f[9] = {&old.c0_, &old.dc0_, &old.ddc0_, &old.j0_, &old.c1_, &old.dc1_, &old.ddc1_, &old.j1_, &old.l0_}; for (int i = 0; i < 9; i++) *t[i] = *f[i]; } z.constraints_.maxAcceleration_ = old.constraints_.maxAcceleration_;
  for (size_t k = 0; k < z.contacts_.size(); k++) { make_stub_contact(I("p0phase", k), stubs[0][k]); ph[k]->m_G_centr = stubs[0][k].G; const_cast<double&>(ph[k]->m_mass) = stubs[0][k].mass; z.contacts_[k].Kin_ = old.contacts_[k].Kin_; z.contacts_[k].kin_ = old.contacts_[k].kin_; z.contacts_[k].Ang_ = old.contacts_[k].Ang_; z.contacts_[k].ang_ = old.contacts_[k].ang_; }
  same(n + ": first call after its data were restored", r1, call(a, p[0], Ts[0], Tv[0], dt[0]));
  // copies of the data are independent of the original and give the same problem
  ProblemData c(p[0]); for (auto& k : c.contacts_) sym::check(n + ": copied contact phases are copies", k.contactPhase_ != p[0].contacts_[&k - &c.contacts_[0]].contactPhase_);
  same(n + ": contents of a copy", snap(p[0], Ts[0], Tv[0], false), snap(c, Ts[0], Tv[0], false)); ProblemData as; as = p[0]; same(n + ": contents after assignment", snap(p[0], Ts[0], Tv[0], false), snap(as, Ts[0], Tv[0], false));
  Snap r4 = call(a, c, Ts[0], Tv[0], dt[0]); same(n + ": call with a copy of the data", r1, r4);
  c.c0_ += V3(1, 1, 1); c.constraints_.maxAcceleration_ = 1.0; c.contacts_[0].Kin_(0, 0) = 7.0; c.contacts_[0].contactPhase_->m_G_centr(0, 0) = 3.0; c.contacts_.pop_back(); same(n + ": changing a copy", in[0], snap(p[0], Ts[0], Tv[0]));
  sym::reach(I("op", a)); sym::reach(I("then", b)); if (a == 7) sym::check("refused", r1.i[1] == 1);
}
