// API shared by the symbolic runtime (symrt.cpp) and the native replay runtime (natrt.cpp).
// Harnesses are written once, in plain C++ over double; in the symbolic build every double
// operation of the harness and of the code under test is routed to the symbolic runtime.
#pragma once
#include <string>
#include <vector>

namespace sym {
typedef std::vector<double> Row;   // a_0 .. a_{n-1}, b   meaning  a.x <= b
typedef std::vector<Row> Rows;

// ---- inputs
double var(const char* name, double lo, double hi);   // arbitrary real in [lo,hi]
double var(const std::string& name, double lo, double hi);
int choice(const char* name, int n);                  // arbitrary integer in [0,n)
// ---- assumptions (documented preconditions)
void assume_le(double a, double b);                   // a <= b
void assume_lt(double a, double b);
void assume_ne(double a, double b);
void discard();                                       // leave this path (outside the claim)
void generic_eq(bool on);   // policy: '==' between symbolic reals takes only the != branch
// ---- obligations
void check_eq(const std::string& what, double a, double b, double tol = 1e-6);
void check_le(const std::string& what, double a, double b, double tol = 1e-6);
void check(const std::string& what, bool cond);       // cond already decided on this path
void fail(const std::string& what);
void reach(const std::string& label);                 // vacuity guard
void set_shared_denoms(bool on);
// feasible set of `got` equals feasible set of `want` (n unknowns)
void check_halfspaces(const std::string& what, int n, const Rows& got, const Rows& want);
// solution set of equalities (row.x == b)
void check_equalities(const std::string& what, int n, const Rows& got, const Rows& want);
// same normal form, no obligation
bool same(double a, double b, double tol = 1e-9);
bool is_poison(double a);
bool is_zero(double a);                               // normal form is 0 / |a| tiny
bool is_const(double a);
bool native_mode();
void note(const std::string& s);
std::string show(double a);
// contents of the variables with static storage of the code under test, and putting them back
std::string save_statics();
void restore_statics(const std::string& saved);
}  // namespace sym

void harness_main();   // provided by each harness
