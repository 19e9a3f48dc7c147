// Native runtime: replays a harness on concrete inputs against the natively compiled code.
// usage: nat VALUES.json   exit 0: all obligations hold, 1: an obligation fails, 3: bad input
#include "sym.h"
#include <execinfo.h>
#include <malloc.h>
#include <math.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
using std::string;
static std::map<string, double> vals;
static std::set<string> labels;
static long nchk = 0;
static bool failed = false;
static const uint64_t POISON = ~0ull;
static bool poison(double d) { uint64_t b; memcpy(&b, &d, 8); return b == POISON; }
static string esc(const string& s) { string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c == '\n' ? ' ' : c; } return r; }
[[noreturn]] static void finish(int rc) {
  printf("LABELS"); for (auto& l : labels) printf(" %s", l.c_str()); printf("\nCHECKS %ld\n", nchk); fflush(stdout); _exit(rc);
}
static void bad(const string& w) { printf("FAIL %s\n", w.c_str()); failed = true; finish(1); }
extern "C" void __assert_fail(const char* e, const char* f, unsigned l, const char*) { bad(string("assertion failed: ") + e + " at " + f + ":" + std::to_string(l)); abort(); }
namespace std { void __glibcxx_assert_fail(const char* f, int l, const char*, const char* c) noexcept { bad("assertion failed: " + string(c ? c : "?") + " at " + f + ":" + to_string(l)); abort(); } }
// memory errors found by AddressSanitizer (harnesses built with it) end the path as a violation
extern "C" const char* __asan_get_report_description() __attribute__((weak));
extern "C" void __asan_on_error() { static bool once = false; if (once) return; once = true; bad(string("memory error: ") + (__asan_get_report_description ? __asan_get_report_description() : "?")); }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:alloc_dealloc_mismatch=0:print_summary=0:max_malloc_fill_size=0:quarantine_size_mb=16:detect_odr_violation=0"; }
extern "C" void __sym_assert(const char* w) { bad(string("assertion failed in the code under test: ") + w); }
namespace sym {
bool native_mode() { return true; }
// inputs the symbolic path never created (it ended earlier) are irrelevant to it: any value in range
static double get(const string& n, double dflt) { auto i = vals.find(n); return i == vals.end() ? dflt : i->second; }
double var(const string& n, double lo, double hi) { return get(n, lo == hi ? lo : lo + (hi - lo) * 0.40625); }
double var(const char* n, double lo, double hi) { return var(string(n), lo, hi); }
int choice(const char* n, int) { return (int)lround(get(n, 0)); }
void discard() { printf("DISCARDED\n"); finish(4); }
void assume_le(double a, double b) { if (!(a <= b + 1e-9)) discard(); }
void assume_lt(double a, double b) { if (!(a < b)) discard(); }
void assume_ne(double a, double b) { if (a == b) discard(); }
void generic_eq(bool) {}
void reach(const string& l) { labels.insert(l); }
void note(const string&) {}
bool is_poison(double a) { return poison(a); }
bool same(double a, double b, double tol) { return a == b || fabs(a - b) <= tol * fmax(1, fmax(fabs(a), fabs(b))); }
bool is_zero(double a) { return fabs(a) < 1e-9; }
bool is_const(double) { return true; }
string show(double a) { std::ostringstream o; o.precision(17); o << a; return o.str(); }
static void val(const string& w, double a, double b) { if (nchk <= 2000) { printf("VAL\t%s\t%.17g\t%.17g\n", w.c_str(), a, b); } }
static double tolof(double tol, double a, double b) { double t = 0.5 * tol; double m = fmax(fabs(a), fabs(b)); return fmax(t, 1e-9 * m); }
void check_eq(const string& w, double a, double b, double tol) {
  nchk++; if (poison(a) || poison(b)) { bad(w + ": uninitialised value"); }
  if (a == b) { val(w, a, b); return; }
  if (!(fabs(a - b) <= tolof(tol, a, b))) bad(w + ": " + show(a) + " != " + show(b)); val(w, a, b);
}
void check_le(const string& w, double a, double b, double tol) { nchk++; if (poison(a) || poison(b)) bad(w + ": uninitialised value"); if (!(a <= b + tolof(tol, a, b))) bad(w + ": " + show(a) + " > " + show(b)); val(w, a, b); }
void check(const string& w, bool c) { nchk++; if (!c) bad(w); }
void fail(const string& w) { nchk++; bad(w); }
static bool norm(const Row& r, Row& o) { double n = 0; for (size_t i = 0; i + 1 < r.size(); i++) n += r[i] * r[i]; n = sqrt(n); o = r; if (n > 1e-10) { for (auto& d : o) d /= n; return true; } return false; }
void check_halfspaces(const string& w, int n, const Rows& got, const Rows& want) {
  for (auto& r : got) { nchk++; if ((int)r.size() != n + 1) bad(w + ": wrong row size"); for (double d : r) if (poison(d) || std::isnan(d) || (std::isinf(d) && &d != &r.back())) bad(w + ": uninitialised or non-finite value in a row"); }
  for (auto& r : want) { nchk++; (void)r; }
  if (vals.count("__hs")) {
    std::vector<double> x; for (int j = 0; j < n && vals.count("__x" + std::to_string(j)); j++) x.push_back(vals["__x" + std::to_string(j)]);
    if ((int)x.size() == n) {
      const Rows &have = vals["__dir"] == 0 ? got : want, &need = vals["__dir"] == 0 ? want : got; Row o; bool in = true; double worst = -1; int wi = -1;
      for (auto& r : have) { bool nz = norm(r, o); double v = -o[n]; for (int j = 0; j < n && nz; j++) v += o[j] * x[j]; if (v > 2e-5) in = false; }
      for (size_t i = 0; i < need.size(); i++) { bool nz = norm(need[i], o); double v = -o[n]; for (int j = 0; j < n && nz; j++) v += o[j] * x[j]; if (v > worst) { worst = v; wi = i; } }
      if (in && worst > 5e-5) bad(w + (vals["__dir"] == 0 ? ": a required constraint is not enforced, row " : ": a point allowed by the specification is excluded, row ") + std::to_string(wi) + " violated by " + show(worst));
    }
    return;
  }
  auto cover = [&](const Rows& a, const Rows& b, const char* d) {
    for (size_t i = 0; i < b.size(); i++) {
      Row o, p; bool nz = norm(b[i], o); if (std::isinf(o[n])) continue; if (!nz) { if (o[n] >= -1e-9) continue; }
      bool f = false; for (auto& r : a) { bool nr = norm(r, p); if (nr != nz) continue; double m = 0; for (int j = 0; j <= n; j++) m = fmax(m, fabs(o[j] - p[j]) / fmax(1.0, fabs(o[j]))); if (m < 1e-6) { f = true; break; } }
      if (!f) { printf("UNMATCHED %s %s row %zu\n", w.c_str(), d, i); }
    } };
  cover(got, want, "specified"); cover(want, got, "built");
}
void check_equalities(const string& w, int n, const Rows& got, const Rows& want) {
  Rows g, v; auto dup = [](const Rows& a, Rows& b) { for (auto& r : a) { b.push_back(r); Row m; for (double d : r) m.push_back(-d); b.push_back(m); } }; dup(got, g); dup(want, v); check_halfspaces(w, n, g, v);
}
}
static void crash(int s) { signal(s, SIG_DFL); const char m[] = "FAIL crash: signal\n"; (void)!write(1, m, sizeof m - 1); _exit(1); }
static void onterm() { string m = "uncaught exception"; try { auto e = std::current_exception(); if (e) std::rethrow_exception(e); } catch (std::exception& e) { m += string(": ") + e.what(); } catch (...) {} bad(m); }
int main(int argc, char** argv) {
  mallopt(M_PERTURB, 0);  // fresh allocations are filled by the operator new / malloc wrappers below
  std::ifstream f(argv[1]); std::stringstream ss; ss << f.rdbuf(); string s = ss.str();
  size_t k = s.find("\"values\""); if (k == string::npos) k = 0; else k = s.find('{', k);
  if (s[k] != '{') k = s.find('{');
  while (k < s.size() && s[k] != '}') {
    size_t a = s.find('"', k); if (a == string::npos) break; size_t e = s.find('}', k); if (e < a) break; size_t b = s.find('"', a + 1); size_t c = s.find(':', b); vals[s.substr(a + 1, b - a - 1)] = atof(s.c_str() + c + 1);
    k = s.find_first_of(",}", c); if (k == string::npos) break; if (s[k] == ',') k++;
  }
  for (int g : {SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGABRT}) signal(g, crash); std::set_terminate(onterm);
  try { harness_main(); } catch (std::exception& e) { bad(string("uncaught exception: ") + e.what()); }
  finish(0);
}
// poison fresh memory exactly as the symbolic build does
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (n < (1u << 26)) memset(p, 0xFF, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
extern "C" void* __real_malloc(size_t);
extern "C" void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (p && n < (1u << 26)) memset(p, 0xFF, n); return p; }

// static storage of the code under test (gathered in one section by the pass)
extern "C" char __start_symstate[] __attribute__((weak)); extern "C" char __stop_symstate[] __attribute__((weak));
namespace sym {
std::string save_statics() { return __start_symstate ? std::string(__start_symstate, __stop_symstate) : std::string(); }
void restore_statics(const std::string& s) { if (!s.empty()) memcpy(__start_symstate, s.data(), s.size()); }
}
