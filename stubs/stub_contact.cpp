// Stand-in for hpp-centroidal-dynamics: a contact phase whose wrench cone (H, h), generators and
// mass are arbitrary values supplied by the harness. Contract kept from the library's documentation:
// gravity is (0,0,-9.81), H w <= h describes the gravito-inertial wrench cone.
#include "stubs.h"
#include <map>
static std::map<std::string, StubContact>& reg() { static std::map<std::string, StubContact> m; return m; }
static double pending_mass = 0;
namespace centroidal_dynamics {
Equilibrium::Equilibrium(const std::string& name, const double mass, const unsigned int generatorsPerContact, const SolverLP solver_type, bool, const unsigned int max_trials, const bool canon)
    : m_mass(mass), m_gravity(0., 0., -9.81), m_name(name), m_algorithm(EQUILIBRIUM_ALGORITHM_PP), m_solver_type(solver_type), m_solver(0),
      m_generatorsPerContact(generatorsPerContact), m_is_cdd_stable(true), max_num_cdd_trials(max_trials), canonicalize_cdd_matrix(canon), m_b0_to_emax_coefficient(0.0) {}
Equilibrium::Equilibrium(const Equilibrium& o)
    : m_mass(o.m_mass), m_gravity(o.m_gravity), m_G_centr(o.m_G_centr), m_name(o.m_name), m_algorithm(o.m_algorithm), m_solver_type(o.m_solver_type), m_solver(0),
      m_generatorsPerContact(o.m_generatorsPerContact), m_H(o.m_H), m_h(o.m_h), m_is_cdd_stable(true), max_num_cdd_trials(o.max_num_cdd_trials), canonicalize_cdd_matrix(o.canonicalize_cdd_matrix), m_b0_to_emax_coefficient(0.0) {}
Equilibrium::~Equilibrium() {}
LP_status Equilibrium::getPolytopeInequalities(MatrixXX& H, VectorX& h) const { H = reg()[m_name].H; h = reg()[m_name].h; return LP_STATUS_OPTIMAL; }
void Equilibrium::setAlgorithm(EquilibriumAlgorithm a) { m_algorithm = a; }
}
centroidal_dynamics::Equilibrium* make_stub_contact(const std::string& name, const StubContact& c) {
  reg()[name] = c; auto* e = new centroidal_dynamics::Equilibrium(name, c.mass, 4); e->m_G_centr = c.G; return e;
}
