// Environment stubs: contact dynamics library, QP back end, GLPK.
#pragma once
#include <Eigen/Dense>
#include <hpp/centroidal-dynamics/centroidal_dynamics.hh>
#include <string>
#include <vector>
struct StubContact {
  double mass; Eigen::MatrixXd H; Eigen::VectorXd h; Eigen::MatrixXd G;
};
centroidal_dynamics::Equilibrium* make_stub_contact(const std::string& name, const StubContact& c);
