// B21: every combination of flags outside the supported sets is refused, by every entry point; so are
// mismatched phase counts and a moving capturability target.
#include "ee.h"
#include <functional>
typedef std::function<void()> Call;
static bool throws(const Call& c) { try { c(); } catch (std::exception&) { return true; } return false; }
static void add_phase(ProblemData& pd, int i) {
  StubContact s; s.mass = 1.0; s.H = Eigen::MatrixXd::Zero(0, 6); s.h = Eigen::VectorXd::Zero(0); s.G = Eigen::MatrixXd::Zero(6, 1);
  ContactData cd(make_stub_contact(I("phase", i), s)); cd.Kin_ = MatrixX3::Zero(0, 3); cd.kin_ = VectorX::Zero(0); pd.contacts_.push_back(cd);
}
void harness_main() {
  sym::generic_eq(true);
  std::vector<FlagSet> com = com_flags(), jerk = jerk_flags(); int part = sym::choice("part", 3);
  ProblemData pd; sym_state(pd); pd.costFunction_ = DISTANCE_TRAVELED; double T = sym::var("T", 1.0, 4.0); answer_failure();
  if (part == 0) {          // all 2^13 combinations, 64 groups of 128
    int group = sym::choice("group", 64); add_phase(pd, 0); VectorX Ts(1); Ts << T; pd.dc1_ = V3::Zero();
    RefPath path; path.a = path.b = path.c = V3::Zero(); double u = sym::var("u", 0.0, 1.0);
    std::vector<point_t> pts; for (int i = 0; i < 13; i++) pts.push_back(V3::Zero());
    for (int k = 0; k < 128; k++) {
      int fl = group * 128 + k; pd.constraints_.flag_ = (ConstraintFlag)fl; bool isCom = false, isJerk = false, isJ0 = fl == (int)jerk[0].flag;
      for (auto& f : com) if ((int)f.flag == fl) isCom = true; for (auto& f : jerk) if ((int)f.flag == fl) isJerk = true;
      struct Api { const char* name; bool ok; Call call; };
      std::vector<Api> apis = {
        {"computeConstantWaypoints", isCom || isJerk, [&] { computeConstantWaypoints(pd, T); }},
        {"computeConstantWaypointsSymbolic", isCom || isJerk, [&] { computeConstantWaypointsSymbolic(pd, T); }},
        {"evaluateCurveAtTime", isCom || isJ0, [&] { evaluateCurveAtTime(pd, pts, u); }},
        {"evaluateAccelerationCurveAtTime", isCom || isJ0, [&] { evaluateAccelerationCurveAtTime(pd, pts, T, u); }},
        {"evaluateCurveWaypointAtTime", isJerk, [&] { evaluateCurveWaypointAtTime(pd, pts, u); }},
        {"evaluateVelocityCurveWaypointAtTime", isJerk, [&] { evaluateVelocityCurveWaypointAtTime(pd, T, pts, u); }},
        {"evaluateAccelerationCurveWaypointAtTime", isJerk, [&] { evaluateAccelerationCurveWaypointAtTime(pd, T, pts, u); }},
        {"evaluateJerkCurveWaypointAtTime", isJerk, [&] { evaluateJerkCurveWaypointAtTime(pd, T, pts, u); }},
        {"computeVelocityWaypoints", isJerk, [&] { computeVelocityWaypoints(pd, T); }},
        {"computeAccelerationWaypoints", isJerk, [&] { computeAccelerationWaypoints(pd, T); }},
        {"computeJerkWaypoints", isJerk, [&] { computeJerkWaypoints(pd, T); }},
        {"computeWwaypoints", isCom || isJ0, [&] { computeWwaypoints(pd, T); }},
        {"computeFinalVelocityPoint", isCom, [&] { computeFinalVelocityPoint(pd, T); }},
        {"computeVelocityCost", isJerk, [&] { computeVelocityCost(pd, T); }},
        {"computeCOMTraj", isCom || isJ0, [&] { computeCOMTraj(pd, Ts, -1); }},
        {"computeCOMTrajFixedSize", isCom || isJ0, [&] { computeCOMTrajFixedSize(pd, Ts, 2); }},
        {"solveEndEffector", isJerk, [&] { solveEndEffector(pd, path, T, 0.0); }},
      };
      for (Api& a : apis) {
        captured().calls = 0; bool t = throws(a.call);
        if (!a.ok) sym::check(string(a.name) + ": unsupported flags " + std::to_string(fl) + " are refused", t && captured().calls == 0);
        else if (!(fl == (int)jerk[2].flag && string(a.name).find("CurveWaypointAtTime") != string::npos)) sym::check(string(a.name) + ": supported flags " + std::to_string(fl) + " are served", !t);
      }
      if (isCom || isJerk) sym::reach("supported"); else sym::reach("unsupported");
    }
  } else if (part == 1) {   // number of durations and of contacts
    FlagSet f = com[sym::choice("flag", (int)com.size())]; pd.constraints_.flag_ = f.flag; if (f.stop) pd.dc1_ = V3::Zero();
    int nc = 1 + sym::choice("contacts", 3), nt = 1 + sym::choice("durations", 4), api = sym::choice("api", 4); if (nt == nc) sym::discard();
    for (int i = 0; i < nc; i++) add_phase(pd, i); VectorX Ts(nt); for (int i = 0; i < nt; i++) Ts(i) = api == 1 ? 1.0 : sym::var(I("T", i), 0.5, 2.0);
    if (api == 3) pd.representation_ = FORCE;
    bool t = throws([&] { if (api == 0) computeCOMTrajFixedSize(pd, Ts, 3); else computeCOMTraj(pd, Ts, api == 1 ? 0.25 : -1.0); });
    sym::check("different numbers of durations and contacts are refused", t && captured().calls == 0); sym::reach("mismatch");
  } else {                  // capturability only supports a terminal velocity of zero
    pd.constraints_.flag_ = com[1].flag; add_phase(pd, 0); VectorX Ts(1); Ts << 1.0; int ax = sym::choice("axis", 3), neg = sym::choice("negative", 2), api = sym::choice("api", 6);
    double v = sym::var("v", 1e-6, 5.0); pd.dc1_ = V3::Zero(); if (sym::choice("other", 2)) pd.dc1_ = symvec("w", -5, 5); pd.dc1_[ax] = neg ? -v : v;
    bool t = throws([&] { if (api == 0) computeConstantWaypoints(pd, T); else if (api == 1) computeConstantWaypointsSymbolic(pd, T); else if (api == 2) computeWwaypoints(pd, T);
      else if (api == 3) computeCOMTrajFixedSize(pd, Ts, 3); else computeCOMTraj(pd, Ts, api == 4 ? 0.25 : -1.0); });
    sym::check("a moving capturability target is refused", t && captured().calls == 0); sym::reach("capturability");
  }
}
