// B24: the Python module, run by the real interpreter with symbolic floats, against the C++ library.
#include <boost/python.hpp>
#include <cstdlib>
#include "rows.h"
#include <hpp/bezier-com-traj/solve_end_effector.hh>
namespace bp = boost::python;
namespace bezier_com_traj { extern "C" PyObject* PyInit_hpp_bezier_com_traj(); }
static bp::object G;   // globals of the scripts
static string pyerror() { PyObject *t, *v, *b; PyErr_Fetch(&t, &v, &b); PyErr_NormalizeException(&t, &v, &b); return t ? ((PyTypeObject*)t)->tp_name : "no exception"; }
static string pymsg() { PyObject *t, *v, *b; PyErr_Fetch(&t, &v, &b); PyErr_NormalizeException(&t, &v, &b); string r = t ? ((PyTypeObject*)t)->tp_name : "?"; if (v) { PyObject* s = PyObject_Str(v); if (s) r += string(": ") + PyUnicode_AsUTF8(s); } return r; }
static void py(const string& w, const string& code) { try { bp::exec(code.c_str(), G, G); } catch (const bp::error_already_set&) { sym::fail(w + ": Python raised " + pymsg()); } }
static bp::object ev(const string& w, const string& code) { try { return bp::eval(code.c_str(), G, G); } catch (const bp::error_already_set&) { sym::fail(w + ": Python raised " + pymsg()); } return bp::object(); }
static void refuse(const string& w, const string& code) { try { bp::exec(code.c_str(), G, G); } catch (const bp::error_already_set&) { sym::check(w + ": refused with RuntimeError", pyerror() == "RuntimeError"); return; } sym::fail(w + ": not refused"); }
static void set(const string& n, const bp::object& o) { G[n.c_str()] = o; }
static bp::list flist(const double* p, long n) { bp::list l; for (long i = 0; i < n; i++) l.append(bp::object(bp::handle<>(PyFloat_FromDouble(p[i])))); return l; }
static void setf(const string& n, double v) { G[n.c_str()] = bp::object(bp::handle<>(PyFloat_FromDouble(v))); }
template <typename V> static void setvec(const string& n, const V& v) { std::vector<double> t(v.size()); for (long i = 0; i < v.size(); i++) t[i] = v(i); G["_l"] = flist(t.data(), t.size()); py(n, n + " = np.array(_l)"); }
template <typename A> static void setmat(const string& n, const A& a, bool fortran = false) {
  bp::list l; for (long i = 0; i < a.rows(); i++) { std::vector<double> t(a.cols()); for (long j = 0; j < a.cols(); j++) t[j] = a(i, j); l.append(flist(t.data(), t.size())); }
  G["_l"] = l; G["_c"] = (int)a.cols(); py(n, n + string(" = np.array(_l, ") + (fortran ? "order='F'" : "order='C'") + ").reshape(-1, _c)");
}
static double getf(const string& w, const string& e) { bp::object o = ev(w, e); if (!PyFloat_Check(o.ptr())) sym::fail(w + ": not a float"); return PyFloat_AsDouble(o.ptr()); }
static long geti(const string& w, const string& e) { return PyLong_AsLong(ev(w, "int(" + e + ")").ptr()); }
static Eigen::MatrixXd getm(const string& w, const string& e, long rows = -1) {   // an array as a matrix; eigenpy turns one-row and one-column matrices into vectors
  set("_o", ev(w, e)); G["_r"] = rows; py(w, "_a = np.asarray(_o)\n_s = _a.shape if _a.ndim == 2 else (1, _a.size) if _r == 1 else (_a.size, 1)\n_l = [float(v) for v in _a.flatten()]");
  long r = geti(w, "_s[0]"), c = geti(w, "_s[1]"); Eigen::MatrixXd m(r, c); bp::list l = bp::extract<bp::list>(G["_l"]);
  for (long i = 0; i < r; i++) for (long j = 0; j < c; j++) m(i, j) = PyFloat_AsDouble(bp::object(l[i * c + j]).ptr());
  return m;
}
template <typename T> static T& cxx(const string& n) { return bp::extract<T&>(bp::object(G[n.c_str()])); }
static void start() {
  setenv("OPENBLAS_NUM_THREADS", "1", 1); PyImport_AppendInittab("hpp_bezier_com_traj", &bezier_com_traj::PyInit_hpp_bezier_com_traj);
  PyConfig c; PyConfig_InitIsolatedConfig(&c); PyConfig_SetString(&c, &c.home, L"/usr"); c.site_import = 0; c.write_bytecode = 0; c.install_signal_handlers = 0;
  if (PyStatus_Exception(Py_InitializeFromConfig(&c))) sym::fail("Python does not start"); PyConfig_Clear(&c);
  G = bp::import("__main__").attr("__dict__");
  py("numpy", "import sys\nsys.path.insert(0, '" NUMPY_DIR "')\nimport numpy as np");
  py("import", "import hpp_bezier_com_traj as m");
  bp::class_<centroidal_dynamics::Equilibrium, boost::noncopyable>("Equilibrium", bp::no_init);
  bp::class_<bezier_t>("bezier", bp::no_init);
}
static void check_state(const string& w, const ProblemData& a, const ProblemData& b) {
  const V3 *p[8] = {&a.c0_, &a.dc0_, &a.ddc0_, &a.j0_, &a.c1_, &a.dc1_, &a.ddc1_, &a.j1_}, *q[8] = {&b.c0_, &b.dc0_, &b.ddc0_, &b.j0_, &b.c1_, &b.dc1_, &b.ddc1_, &b.j1_};
  const char* n[8] = {"c0_", "dc0_", "ddc0_", "j0_", "c1_", "dc1_", "ddc1_", "j1_"};
  for (int i = 0; i < 8; i++) check_vec(w + ": " + n[i], *p[i], *q[i]);
  sym::check(w + ": enumerations", a.useAngularMomentum_ == b.useAngularMomentum_ && a.costFunction_ == b.costFunction_ && a.representation_ == b.representation_);
  sym::check(w + ": flags", a.constraints_.flag_ == b.constraints_.flag_ && a.constraints_.constraintAcceleration_ == b.constraints_.constraintAcceleration_);
  sym::check_eq(w + ": acceleration bound", a.constraints_.maxAcceleration_, b.constraints_.maxAcceleration_); sym::check_eq(w + ": margin", a.constraints_.reduce_h_, b.constraints_.reduce_h_);
  sym::check(w + ": number of contacts", a.contacts_.size() == b.contacts_.size());
}
static const char* VN[6] = {"c0_", "dc0_", "ddc0_", "c1_", "dc1_", "ddc1_"};
static V3* member(ProblemData& p, int i) { V3* t[6] = {&p.c0_, &p.dc0_, &p.ddc0_, &p.c1_, &p.dc1_, &p.ddc1_}; return t[i]; }
static void check_problem(const string& w, const Problem& p, const Problem& q) {
  sym::check(w + ": optimiser called as often", p.calls == q.calls); if (!p.calls) return;
  check_mat(w + ": A", p.A, q.A); check_vec(w + ": b", p.b, q.b); check_mat(w + ": D", p.D, q.D); check_vec(w + ": d", p.d, q.d); check_mat(w + ": H", p.H, q.H); check_vec(w + ": g", p.g, q.g);
  check_vec(w + ": initial guess", p.init, q.init); check_vec(w + ": lower bounds", p.lo, q.lo); check_vec(w + ": upper bounds", p.hi, q.hi); sym::check(w + ": solver", p.solver == q.solver);
}
static void check_curve(const string& w, const bezier_t& a, const bezier_t& b) {
  sym::check(w + ": control points", a.waypoints().size() == b.waypoints().size()); sym::check_eq(w + ": start", a.min(), b.min()); sym::check_eq(w + ": end", a.max(), b.max());
  for (size_t i = 0; i < a.waypoints().size(); i++) check_vec(w + ": control point " + std::to_string(i), a.waypoints()[i], b.waypoints()[i]);
}
// the Python result object `r` against the C++ result
static void check_result(const string& w, const ResultDataCOMTraj& r) {
  bp::object s = ev(w, "r.success"); sym::check(w + ": success is a bool", PyBool_Check(s.ptr())); sym::check(w + ": success", (s.ptr() == Py_True) == r.success_);
  sym::check_eq(w + ": cost", getf(w, "r.cost"), r.cost_);
  if (r.x.size()) check_vec(w + ": x", Eigen::VectorXd(getm(w, "r.x")), r.x); else refuse(w + ": x of an empty result", "r.x");
  py(w, "ct = r.c_of_t\ndl = r.dL_of_t"); check_curve(w + ": c_of_t", cxx<bezier_t>("ct"), r.c_of_t_); check_curve(w + ": dL_of_t", cxx<bezier_t>("dl"), r.dL_of_t_);
}
static void state(ProblemData& ref, const string& pd) { for (int i = 0; i < 6; i++) { *member(ref, i) = symvec(VN[i], -5, 5); setvec("v", *member(ref, i)); py(VN[i], pd + "." + VN[i] + " = v"); } }
static void phase(ProblemData& ref, const string& pd, int i, bool kin, bool ang) {
  ContactData c = cone_phase(i, 1, kin); c.Ang_ = MatrixX3::Zero(ang ? 2 : 0, 3); c.ang_ = VectorX::Zero(ang ? 2 : 0);
  for (long k = 0; k < c.Ang_.rows(); k++) { for (int j = 0; j < 3; j++) c.Ang_(k, j) = sym::var("N" + std::to_string(i) + std::to_string(k) + std::to_string(j), 0.25, 2.0); c.ang_(k) = sym::var("n" + std::to_string(i) + std::to_string(k), -5.0, 5.0); }
  string e = I("eq", i), cd = I("cd", i); set(e, bp::object(bp::ptr(c.contactPhase_))); py("ContactData", cd + " = m.ContactData(" + e + ")");
  if (kin) { setmat("K", c.Kin_); setvec("k", c.kin_); py("setKinematicConstraints", cd + ".setKinematicConstraints(K, k)"); } else { py("no rows", cd + ".setKinematicConstraints(np.zeros((0, 3)), np.zeros(0))"); }
  if (ang) { setmat("K", c.Ang_); setvec("k", c.ang_); py("setAngularConstraints", cd + ".setAngularConstraints(K, k)"); } else { py("no rows", cd + ".setAngularConstraints(np.zeros((0, 3)), np.zeros(0))"); }
  py("addContact", pd + ".addContact(" + cd + ")"); ref.contacts_.push_back(c);
}
static centroidal_dynamics::Equilibrium* owned(int i, double mass) { StubContact c; c.mass = mass; c.H = cone(i, 1); c.h = Eigen::VectorXd::Zero(1); c.G = Eigen::MatrixXd::Zero(6, 1); return make_stub_contact(I("owned", i), c); }
static void attributes() {
  py("ProblemData", "pd = m.ProblemData()"); ProblemData ref; check_state("defaults", cxx<ProblemData>("pd"), ref);
  int what = sym::choice("attribute", 14); string w;
  if (what < 6) {
    w = VN[what]; V3 v = symvec("v", -9, 9), u = symvec("u", -9, 9); int form = sym::choice("form", 3); setvec("v", v);
    if (form == 1) py(w, "v = v.reshape(3, 1)"); if (form == 2) py(w, "v = np.array([7., v[0], 7., v[1], 7., v[2], 7.])[1::2]");   // column, strided
    py(w, "pd." + w + " = v"); *member(ref, what) = v; check_state("write " + w, cxx<ProblemData>("pd"), ref);
    *member(cxx<ProblemData>("pd"), what) = u; check_vec("read " + w, Eigen::VectorXd(getm(w, "pd." + w)), u);
    py(w, "t = pd." + w + "\nt[0] = 3.0"); *member(ref, what) = u; check_state("a value read is a copy, " + w, cxx<ProblemData>("pd"), ref);
    try { bp::exec(("pd." + w + " = np.zeros(4)").c_str(), G, G); sym::fail(w + ": a vector of 4 is accepted"); } catch (const bp::error_already_set&) { pyerror(); }
    check_state("refused vector, " + w, cxx<ProblemData>("pd"), ref);
  } else if (what == 6) {
    w = "useAngularMomentum_"; bool b = sym::choice("value", 2); py(w, string("pd.useAngularMomentum_ = ") + (b ? "True" : "False")); ref.useAngularMomentum_ = b; check_state("write " + w, cxx<ProblemData>("pd"), ref);
    sym::check("read " + w, (ev(w, "pd.useAngularMomentum_").ptr() == Py_True) == b);
  } else if (what == 7) {
    const char* n[4] = {"ACCELERATION", "DISTANCE_TRAVELED", "TARGET_END_VELOCITY", "UNKNOWN_COST"}; CostFunction v[4] = {ACCELERATION, DISTANCE_TRAVELED, TARGET_END_VELOCITY, UNKNOWN_COST};
    int i = sym::choice("value", 4); w = n[i]; py(w, string("pd.costFunction_ = m.CostFunction.") + n[i]); ref.costFunction_ = v[i]; check_state("write " + w, cxx<ProblemData>("pd"), ref); sym::check("read " + w, geti(w, string("pd.costFunction_ == m.") + n[i]) == 1 && geti(w, "pd.costFunction_") == (long)v[i]);
  } else if (what == 8) {
    const char* n[3] = {"DOUBLE_DESCRIPTION", "FORCE", "UNKNOWN_REPRESENTATION"}; GIWCRepresentation v[3] = {DOUBLE_DESCRIPTION, FORCE, UNKNOWN_REPRESENTATION};
    int i = sym::choice("value", 3); w = n[i]; py(w, string("pd.GIWCrepresentation_ = m.GIWCRepresentation.") + n[i]); ref.representation_ = v[i]; check_state("write " + w, cxx<ProblemData>("pd"), ref); sym::check("read " + w, geti(w, string("pd.GIWCrepresentation_ == m.") + n[i]) == 1);
  } else if (what == 9) {   // constraints, through a reference or assigned
    int form = sym::choice("form", 2); double a = sym::var("a", 0.1, 50), h = sym::var("h", 0.0, 1.0); bool acc = sym::choice("acc", 2); setf("a", a); setf("h", h); w = "constraints_";
    if (form) py(w, "c = m.Constraints()"); else py(w, "c = pd.constraints_");
    py(w, string("c.flag_ = m.INIT_POS | m.INIT_VEL | m.INIT_ACC | m.END_POS\nc.constrainAcceleration_ = ") + (acc ? "True" : "False") + "\nc.maxAcceleration_ = a\nc.reduce_h_ = h");
    if (form) py(w, "pd.constraints_ = c"); ref.constraints_.flag_ = INIT_POS | INIT_VEL | INIT_ACC | END_POS; ref.constraints_.constraintAcceleration_ = acc; ref.constraints_.maxAcceleration_ = a; ref.constraints_.reduce_h_ = h;
    check_state(w, cxx<ProblemData>("pd"), ref);
    sym::check("read flag_", geti(w, "pd.constraints_.flag_") == (long)ref.constraints_.flag_); sym::check("read constrainAcceleration_", (ev(w, "pd.constraints_.constrainAcceleration_").ptr() == Py_True) == acc);
    sym::check_eq("read maxAcceleration_", getf(w, "pd.constraints_.maxAcceleration_"), a); sym::check_eq("read reduce_h_", getf(w, "pd.constraints_.reduce_h_"), h);
    if (form) { py(w, "c.maxAcceleration_ = 3.0"); check_state("assigning copies", cxx<ProblemData>("pd"), ref); }
  } else if (what == 10) {   // every flag and every combination of two
    const char* n[14] = {"INIT_POS", "INIT_VEL", "INIT_ACC", "INIT_JERK", "END_POS", "END_VEL", "END_ACC", "END_JERK", "ONE_FREE_VAR", "TWO_FREE_VAR", "THREE_FREE_VAR", "FOUR_FREE_VAR", "FIVE_FREE_VAR", "UNKNOWN"};
    ConstraintFlag v[14] = {INIT_POS, INIT_VEL, INIT_ACC, INIT_JERK, END_POS, END_VEL, END_ACC, END_JERK, ONE_FREE_VAR, TWO_FREE_VAR, THREE_FREE_VAR, FOUR_FREE_VAR, FIVE_FREE_VAR, UNKNOWN};
    for (int i = 0; i < 14; i++) for (int j = 0; j < 14; j++) { w = string(n[i]) + "|" + n[j]; py(w, string("pd.constraints_.flag_ = m.ConstraintFlag.") + n[i] + " | m." + n[j]); sym::check(w, cxx<ProblemData>("pd").constraints_.flag_ == (ConstraintFlag)(v[i] | v[j])); }
    sym::check("solver enumeration", geti(w, "m.SOLVER_QUADPROG") == (long)solvers::SOLVER_QUADPROG && geti(w, "m.SOLVER_GLPK") == (long)solvers::SOLVER_GLPK);
  } else if (what == 11) {   // contact data
    w = "ContactData"; ContactData c = cone_phase(0, 1, false); set("eq", bp::object(bp::ptr(c.contactPhase_))); py(w, "cd = m.ContactData(eq)"); ContactData& p = cxx<ContactData>("cd");
    sym::check("contactPhase_", p.contactPhase_ == c.contactPhase_); set("e", ev(w, "cd.contactPhase_")); sym::check("read contactPhase_", &cxx<centroidal_dynamics::Equilibrium>("e") == c.contactPhase_);
    refuse("unset Kin_", "cd.Kin_"); refuse("unset Ang_", "cd.Ang_");
    int n = 1 + sym::choice("rows", 3), ang = sym::choice("ang", 2), bad = sym::choice("bad", 3) - 1, order = sym::choice("order", 2); string f = ang ? "setAngularConstraints" : "setKinematicConstraints", g = ang ? "Ang_" : "Kin_";
    MatrixX3 K(n, 3); VectorX k(n + bad); for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) K(i, j) = sym::var("K" + std::to_string(i) + std::to_string(j), -2, 2); for (int i = 0; i < n + bad; i++) k(i) = sym::var(I("k", i), -5, 5);
    setmat("K", K, order); setvec("k", k);
    if (bad) { refuse("sizes that do not match", "cd." + f + "(K, k)"); sym::check("refused constraints change nothing", p.kin_.size() == 0 && p.ang_.size() == 0); sym::reach("mismatch"); }
    else {
      py(f, "cd." + f + "(K, k)"); check_mat(f, ang ? p.Ang_ : p.Kin_, K); check_vec(f, ang ? p.ang_ : p.kin_, k); sym::check(f + " leaves the other alone", (ang ? p.kin_ : p.ang_).size() == 0); if (!ang) refuse("unset Ang_", "cd.Ang_"); else refuse("unset Kin_", "cd.Kin_");
      check_mat("read " + g, getm(g, "cd." + g + "[0]", n), K); check_vec("read " + g, Eigen::VectorXd(getm(g, "cd." + g + "[1]")), k);
      py(w, "pd.addContact(cd)\npd.addContact(cd)"); ProblemData& q = cxx<ProblemData>("pd"); sym::check("addContact", q.contacts_.size() == 2);
      for (int i = 0; i < 2; i++) { check_mat("addContact", ang ? q.contacts_[i].Ang_ : q.contacts_[i].Kin_, K); check_vec("addContact", ang ? q.contacts_[i].ang_ : q.contacts_[i].kin_, k); sym::check_eq("addContact mass", q.contacts_[i].contactPhase_->m_mass, c.contactPhase_->m_mass); }
      py(w, "pd.clearContacts()"); sym::check("clearContacts", q.contacts_.empty());
    }
  } else if (what == 13) {   // what a script holds stays valid when it drops the owner
    w = "lifetime"; double a = sym::var("a", 0.1, 50), b = sym::var("b", 0.1, 50); setf("a", a); setf("b", b); set("make", bp::make_function(&owned, bp::return_value_policy<bp::manage_new_object>()));
    py(w, "import gc\ndef con():\n  p = m.ProblemData(); c = p.constraints_; c.flag_ = 35; c.maxAcceleration_ = a; return c\nc = con(); gc.collect(); keep = [m.ProblemData() for i in range(40)]");
    sym::check("constraints of a dropped ProblemData: flag", geti(w, "c.flag_") == 35); sym::check_eq("constraints of a dropped ProblemData: bound", getf(w, "c.maxAcceleration_"), a);
    py(w, "c.maxAcceleration_ = b\ndef con2():\n  d = m.ContactData(make(1, 7.0)); d.contactPhase_ = make(2, a); return d\nd = con2(); gc.collect(); keep2 = [make(3, 50.0) for i in range(40)]\nq = m.ProblemData(); q.addContact(d)");
    for (int i = 0; i < 40; i++) { ev(w, "keep.append(m.ProblemData())"); } bp::list kept(G["keep"]); for (int i = 0; i < 40; i++) sym::check("other objects are untouched", bp::extract<ProblemData&>(bp::object(kept[i]))().constraints_.maxAcceleration_ == ref.constraints_.maxAcceleration_);
    sym::check_eq("contact phase assigned and dropped", cxx<ContactData>("d").contactPhase_->m_mass, a); sym::check_eq("contact added", cxx<ProblemData>("q").contacts_.at(0).contactPhase_->m_mass, a);
    py(w, "def ph():\n  return m.ContactData(make(4, b)).contactPhase_\ne = ph(); gc.collect(); keep3 = [make(5, 51.0) for i in range(40)]"); sym::check_eq("contact phase of a dropped ContactData", cxx<centroidal_dynamics::Equilibrium>("e").m_mass, b);
  } else {   // plain results
    w = "ResultData"; py(w, "r = m.ResultData()\nrc = m.ResultDataCOMTraj()"); ResultData& r = cxx<ResultData>("r"); sym::check("default results", !r.success_ && !cxx<ResultDataCOMTraj>("rc").success_); r.success_ = sym::choice("value", 2); r.cost_ = sym::var("cost", -9, 9); refuse("x of an empty result", "r.x");
    r.x.resize(4); for (int i = 0; i < 4; i++) r.x(i) = sym::var(I("x", i), -9, 9); check_vec("ResultData x", Eigen::VectorXd(getm(w, "r.x")), r.x); sym::check_eq("ResultData cost", getf(w, "r.cost"), r.cost_); sym::check("ResultData success", (ev(w, "r.success").ptr() == Py_True) == r.success_);
  }
  sym::reach(I("attribute", what));
}
static void com() {
  std::vector<FlagSet> fs = com_flags(); const FlagSet f = fs[sym::choice("flag", (int)fs.size())]; ProblemData ref; py("pd", "pd = m.ProblemData()"); state(ref, "pd"); if (f.stop) { ref.dc1_ = V3::Zero(); py("dc1", "pd.dc1_ = np.zeros(3)"); }
  ref.constraints_.flag_ = f.flag; py("flag", "pd.constraints_.flag_ = " + std::to_string((int)f.flag)); int ph = 1 + (f.name == string("c0_dc0_dc1_c1") ? sym::choice("phases", 2) : 0); for (int i = 0; i < ph; i++) phase(ref, "pd", i, i == 0, false);
  int api = sym::choice("api", 4); bool ok = sym::choice("solved", 2) == 0; if (ok) answer_success(3); else answer_failure(); string w = I("computeCOMTraj ", api);
  bool cont = api != 1; double T = sym::var("T", 1.0, 4.0); VectorX Ts(ph); for (int i = 0; i < ph; i++) Ts(i) = !cont ? 0.5 + i : ph == 1 ? T : i == 0 ? 0.375 * T : T - 0.375 * T; double step = cont ? -1. : 0.25; setvec("Ts", Ts); setf("step", step);
  if (api == 2) { bool acc = true; ref.constraints_.constraintAcceleration_ = acc; ref.constraints_.maxAcceleration_ = sym::var("maxacc", 1, 20); setf("a", ref.constraints_.maxAcceleration_); py(w, "pd.constraints_.constrainAcceleration_ = True\npd.constraints_.maxAcceleration_ = a"); }
  const char* s[4] = {"", "", ", m.SOLVER_QUADPROG", ", m.SolverType.SOLVER_GLPK"};
  py(w, string("r = m.computeCOMTraj(pd, Ts, step") + s[api] + ")"); Problem p = captured(); captured().calls = 0;
  ResultDataCOMTraj r = computeCOMTraj(ref, Ts, step, api == 3 ? solvers::SOLVER_GLPK : solvers::SOLVER_QUADPROG);
  check_problem(w, p, captured()); check_result(w, r); sym::reach(I("com", api)); sym::reach(ok ? "success" : "failure");
  if (api == 0) {   // what the library refuses is refused
    try { bp::exec("m.computeCOMTraj(pd, np.ones(5), step)", G, G); sym::fail("mismatched durations are accepted"); } catch (const bp::error_already_set&) { pyerror(); }
  }
}
static void zero() {
  ProblemData ref; bool am = sym::choice("momentum", 2), disc = sym::choice("discretised", 2), ok = sym::choice("solved", 2) == 0; int kin = sym::choice("kin", 6); ref.useAngularMomentum_ = am; if (ok) answer_success(am ? 6 : 3); else answer_failure();
  ref.c0_ = symvec("c0", -5, 5); ref.dc0_ = symvec("dc0", -5, 5); ref.l0_ = symvec("l0", -5, 5); double T = sym::var("T", 0.5, 4.0), dt = disc ? T / 2.5 : -1.0;
  ContactData c = cone_phase(0, 2, false); ContactData d; d.contactPhase_ = c.contactPhase_; int n = 3;
  if (kin) { d.Kin_ = MatrixX3::Zero(n, 3); d.kin_ = VectorX::Zero(n); for (int i = 0; i < n; i++) { for (int j = 0; j < 3; j++) d.Kin_(i, j) = sym::var("K" + std::to_string(i) + std::to_string(j), 0.25, 2.0); d.kin_(i) = sym::var(I("k", i), -5, 5); } }
  ref.contacts_.push_back(d); set("eq", bp::object(bp::ptr(c.contactPhase_))); setvec("c0", ref.c0_); setvec("dc0", ref.dc0_); setvec("l0", ref.l0_); setf("T", T); setf("dt", dt);
  string w = kin ? "zeroStepCapturability with kinematics" : "zeroStepCapturability", call = string("r = m.zeroStepCapturability(eq, c0, dc0, l0, ") + (am ? "True" : "False") + ", T, dt";
  if (kin) { setmat("K", d.Kin_); setvec("k", d.kin_); call += ", K, k"; if (kin == 2) call += ".reshape(-1, 1)"; sym::reach(I("kin", kin)); }
  if (kin > 3) { py(w, kin == 4 ? "k = k[:-1]" : "k = np.append(k, 1.0)"); refuse(w + ": sizes that do not match", call + ")"); sym::check(w + ": refused without solving", captured().calls == 0); return; }
  if (kin == 3) {   // a row may be taken for the vector it holds or refused
    py(w, "k = k.reshape(1, -1)"); try { bp::exec((call + ")").c_str(), G, G); } catch (const bp::error_already_set&) { pyerror(); sym::check(w + ": refused without solving", captured().calls == 0); return; } captured().calls = 0;
  }
  py(w, call + ")"); Problem p = captured(); captured().calls = 0; ResultDataCOMTraj r = solve0step(ref, std::vector<double>(1, T), dt);
  check_problem(w, p, captured()); check_result(w, r); sym::reach(am ? "momentum" : "plain"); sym::reach(disc ? "discretised" : "continuous");
}
struct ZeroPath { V3 operator()(double) const { return V3::Zero(); } };
static void foot() {
  std::vector<FlagSet> fs = jerk_flags(); const FlagSet f = fs[sym::choice("flag", (int)fs.size())]; ProblemData ref; py("pd", "pd = m.ProblemData()"); state(ref, "pd"); ref.constraints_.flag_ = f.flag; py("flag", "pd.constraints_.flag_ = " + std::to_string((int)f.flag));
  double T = sym::var("T", 0.5, 4.0); setf("T", T); bool ok = sym::choice("solved", 2) == 0; int api = sym::choice("api", 5); if (ok) answer_success(3 * f.nf); else { answer_failure(); if (api) sym::discard(); }
  string w = string(f.name) + ": "; std::vector<bezier_t::point_t> pi = computeConstantWaypoints(ref, T);
  if (api == 0) { w += "computeEndEffector"; py(w, "r = m.computeEndEffector(pd, T)"); Problem p = captured(); captured().calls = 0; ResultDataCOMTraj r = solveEndEffector(ref, ZeroPath(), T, 0); check_problem(w, p, captured()); check_result(w, r); }
  else if (api == 1) { w += "constraints"; std::pair<MatrixXX, VectorX> q = computeEndEffectorConstraints(ref, T, pi); py(w, "r = m.computeEndEffectorConstraints(pd, T)"); check_mat(w + " A", getm(w, "r.A", q.first.rows()), q.first); check_vec(w + " b", Eigen::VectorXd(getm(w, "r.b")), q.second); }
  else if (api == 2) { w += "velocity cost"; std::pair<MatrixXX, VectorX> q = computeVelocityCost(ref, T, pi); py(w, "r = m.computeEndEffectorVelocityCost(pd, T)"); check_mat(w + " H", getm(w, "r.A", q.first.rows()), q.first); check_vec(w + " g", Eigen::VectorXd(getm(w, "r.b")), q.second); }
  else if (api == 3) {
    w += "distance cost"; int n = 4 - sym::choice("points", 2); Eigen::MatrixXd P(3, n); std::vector<point3_t> path; for (int j = 0; j < n; j++) { path.push_back(symvec(I("p", j), -5, 5)); P.col(j) = path.back(); }
    setmat("P", P, sym::choice("order", 2)); if (n != 4) { refuse("number of points that does not match", "m.computeEndEffectorDistanceCost(pd, T, 4, P)"); sym::reach("mismatch_points"); return; }
    std::pair<MatrixXX, VectorX> q = computeDistanceCostFunction(4, ref, T, path); py(w, "r = m.computeEndEffectorDistanceCost(pd, T, 4, P)"); check_mat(w + " H", getm(w, "r.A", q.first.rows()), q.first); check_vec(w + " g", Eigen::VectorXd(getm(w, "r.b")), q.second);
  } else { w += "constant waypoints"; Eigen::MatrixXd m = getm(w, "m.computeEndEffectorConstantWaypoints(pd, T)"); sym::check(w + ": shape", m.rows() == 3 && m.cols() == (long)pi.size()); for (size_t i = 0; i < pi.size(); i++) check_vec(w, m.col(i), pi[i]); }
  sym::reach(I("foot", api));
}
void harness_main() {
  sym::generic_eq(true); int k = sym::choice("kind", 4); start();
  if (k == 0) attributes(); else if (k == 1) com(); else if (k == 2) zero(); else foot();
}
