#include <functional>
// Symbolic runtime. Every double is either a native constant or a NaN-boxed index of a symbolic
// real: an exact Laurent polynomial over the inputs (plus sqrt and inverse atoms). Branches on
// symbolic reals fork the path; feasibility and obligations go to an SMT solver (NRA).
#include "sym.h"
#include <gmpxx.h>
#include <math.h>
#include <malloc.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <execinfo.h>
#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <unordered_map>

using std::string; using std::vector; using std::pair; using std::map;
typedef uint64_t u64;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ boxing
static const u64 BOX = 0x7FFCull << 48, BOXM = 0xFFFFull << 48;
static const u64 POISON = ~0ull;
static u64 bits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static double frombits(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static bool boxed(double d) { return (bits(d) & BOXM) == BOX; }
static bool poison(double d) { return bits(d) == POISON; }
static double boxup(int i) { return frombits(BOX | (u64)i); }

// ------------------------------------------------------------------ atoms, monomials, polynomials
enum AtomKind { VAR, SQRT, INV };
struct Poly; typedef std::shared_ptr<const Poly> PP;
struct Atom { AtomKind kind; string name; double lo, hi; PP arg; };
static vector<Atom> atoms;
typedef vector<pair<int, int>> Mono;   // (atom, exponent), sorted
static vector<Mono> monos; static map<Mono, int> monoid;
static int mono(const Mono& m) {
  auto it = monoid.find(m); if (it != monoid.end()) return it->second;
  int i = monos.size(); monos.push_back(m); monoid[m] = i; return i;
}
static std::unordered_map<u64, int> mulcache;
static int monomul(int a, int b) {
  if (!a) return b; if (!b) return a;
  if (a > b) std::swap(a, b);
  u64 k = ((u64)a << 32) | b; auto it = mulcache.find(k); if (it != mulcache.end()) return it->second;
  const Mono x = monos[a], y = monos[b]; Mono r; size_t i = 0, j = 0;
  while (i < x.size() || j < y.size()) {
    if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
    else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
    else { int e = x[i].second + y[j].second; if (e) r.push_back({x[i].first, e}); i++; j++; }
  }
  int id = mono(r); mulcache[k] = id; return id;
}
static int monopow1(int atom, int e) { Mono m; if (e) m.push_back({atom, e}); return mono(m); }
static int monoexp(int m, int atom) { for (auto& p : monos[m]) if (p.first == atom) return p.second; return 0; }
struct Poly {
  vector<pair<int, mpq_class>> t;   // sorted by monomial id
  bool isconst() const { return t.empty() || (t.size() == 1 && t[0].first == 0); }
  mpq_class cval() const { return t.empty() ? mpq_class(0) : t[0].second; }
  bool zero() const { return t.empty(); }
};
static PP mk(vector<pair<int, mpq_class>>&& t) { auto p = std::make_shared<Poly>(); p->t = std::move(t); return p; }
static PP pconst(const mpq_class& c) { vector<pair<int, mpq_class>> t; if (c != 0) t.push_back({0, c}); return mk(std::move(t)); }
static bool peq(const Poly& a, const Poly& b) {
  if (a.t.size() != b.t.size()) return false;
  for (size_t i = 0; i < a.t.size(); i++) if (a.t[i].first != b.t[i].first || a.t[i].second != b.t[i].second) return false;
  return true;
}
static size_t phash(const Poly& a) {
  size_t h = 1469598103u;
  for (auto& x : a.t) {
    h = h * 1000003u ^ x.first;
    h = h * 1000003u ^ mpz_get_ui(x.second.get_num_mpz_t()); h = h * 31 + (sgn(x.second) < 0);
    h = h * 1000003u ^ mpz_get_ui(x.second.get_den_mpz_t());
  }
  return h;
}
static std::unordered_map<size_t, vector<PP>> pool;
static PP intern(PP p) {
  auto& v = pool[phash(*p)]; for (auto& q : v) if (peq(*q, *p)) return q;
  v.push_back(p); return p;
}
static PP padd(const PP& a, const PP& b, int sg = 1) {
  vector<pair<int, mpq_class>> r; r.reserve(a->t.size() + b->t.size()); size_t i = 0, j = 0;
  while (i < a->t.size() || j < b->t.size()) {
    if (j == b->t.size() || (i < a->t.size() && a->t[i].first < b->t[j].first)) r.push_back(a->t[i++]);
    else if (i == a->t.size() || b->t[j].first < a->t[i].first) { r.push_back({b->t[j].first, sg > 0 ? b->t[j].second : mpq_class(-b->t[j].second)}); j++; }
    else { mpq_class c = sg > 0 ? mpq_class(a->t[i].second + b->t[j].second) : mpq_class(a->t[i].second - b->t[j].second); if (c != 0) r.push_back({a->t[i].first, c}); i++; j++; }
  }
  return mk(std::move(r));
}
static PP pscale(const PP& a, const mpq_class& c) {
  if (c == 0) return pconst(0);
  vector<pair<int, mpq_class>> r = a->t; for (auto& x : r) x.second *= c; return mk(std::move(r));
}
static PP collect(std::unordered_map<int, mpq_class>& m) {
  vector<pair<int, mpq_class>> r; r.reserve(m.size());
  for (auto& x : m) if (x.second != 0) r.push_back(x);
  std::sort(r.begin(), r.end(), [](const pair<int, mpq_class>& a, const pair<int, mpq_class>& b) { return a.first < b.first; });
  return mk(std::move(r));
}
static PP pmul(const PP& a, const PP& b);
// replace s^2 (s = sqrt atom, positive exponent >= 2) by its argument
static PP sqreduce(PP p) {
  for (int guard = 0; guard < 64; guard++) {
    int at = -1;
    for (auto& x : p->t) { for (auto& f : monos[x.first]) if (atoms[f.first].kind == SQRT && f.second >= 2) { at = f.first; break; } if (at >= 0) break; }
    if (at < 0) return p;
    std::unordered_map<int, mpq_class> keep; PP acc = pconst(0);
    vector<pair<int, mpq_class>> k2; map<int, vector<pair<int, mpq_class>>> by;
    for (auto& x : p->t) {
      int e = monoexp(x.first, at);
      if (e < 2) k2.push_back(x); else by[e / 2].push_back({monomul(x.first, monopow1(at, -2 * (e / 2))), x.second});
    }
    acc = mk(std::move(k2));
    for (auto& g : by) {
      std::unordered_map<int, mpq_class> m; for (auto& x : g.second) m[x.first] += x.second;
      PP q = collect(m); for (int i = 0; i < g.first; i++) q = pmul(q, atoms[at].arg);
      acc = padd(acc, q);
    }
    p = acc;
  }
  return p;
}
[[noreturn]] static void end_path(const string& status, const string& msg);
static size_t MAXTERMS = 400000;
static PP pmul(const PP& a, const PP& b) {
  if (a->zero() || b->zero()) return pconst(0);
  if (a->isconst()) return pscale(b, a->cval());
  if (b->isconst()) return pscale(a, b->cval());
  if (a->t.size() * b->t.size() > 40000000ull) end_path("inconclusive", "polynomial too large");
  std::unordered_map<int, mpq_class> m; m.reserve(a->t.size() * b->t.size());
  bool sq = false;
  for (auto& x : a->t) for (auto& y : b->t) {
    int id = monomul(x.first, y.first);
    m[id] += x.second * y.second;
  }
  for (auto& x : m) for (auto& f : monos[x.first]) if (atoms[f.first].kind == SQRT && f.second >= 2) sq = true;
  PP r = collect(m);
  if (r->t.size() > MAXTERMS) end_path("inconclusive", "polynomial too large");
  return sq ? sqreduce(r) : r;
}
static PP pmonomul(const PP& a, int mn) {
  std::unordered_map<int, mpq_class> m; for (auto& x : a->t) m[monomul(x.first, mn)] += x.second; return sqreduce(collect(m));
}
// ------------------------------------------------------------------ intervals
struct Itv { double lo, hi; };
static Itv imul(Itv a, Itv b) {
  double v[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
  Itv r{v[0], v[0]}; for (double x : v) { if (std::isnan(x)) return {-INFINITY, INFINITY}; r.lo = std::min(r.lo, x); r.hi = std::max(r.hi, x); } return r;
}
static Itv iinv(Itv a) { if (a.lo > 0 || a.hi < 0) return {1 / a.hi, 1 / a.lo}; return {-INFINITY, INFINITY}; }
static Itv ipow(Itv a, int e) {
  if (e < 0) return iinv(ipow(a, -e));
  if (e % 2 == 0) { double x = pow(a.lo, e), y = pow(a.hi, e); Itv r{std::min(x, y), std::max(x, y)}; if (a.lo <= 0 && a.hi >= 0) r.lo = 0; return r; }
  return {pow(a.lo, e), pow(a.hi, e)};
}
static Itv widen(Itv r) {
  double w = 1e-12 * (fabs(r.lo) + fabs(r.hi)); if (!(w < INFINITY)) return r; return {r.lo - w, r.hi + w};
}
static Itv atomitv(int a) { return {atoms[a].lo, atoms[a].hi}; }
static Itv interval(const Poly& p) {
  Itv r{0, 0}; double mag = 0;
  for (auto& x : p.t) {
    Itv m{1, 1}; for (auto& f : monos[x.first]) m = imul(m, ipow(atomitv(f.first), f.second));
    double c = x.second.get_d(); Itv s = imul({c, c}, m); r.lo += s.lo; r.hi += s.hi; mag = std::max(mag, std::max(fabs(s.lo), fabs(s.hi)));
  }
  double w = 1e-12 * mag; if (p.isconst()) w = 0;
  if (w < INFINITY) { r.lo -= w; r.hi += w; }
  return r;
}
static bool atompos(int a) { return atoms[a].lo > 0; }
// ------------------------------------------------------------------ clearing denominators
struct Cleared { PP n; };
// multiply by positive / even factors until no negative exponent and no INV atom remains; sign preserved
static PP clear(PP p, bool keepsign = true) {
  for (int guard = 0; guard < 200; guard++) {
    int inv = -1, best = -1;
    for (auto& x : p->t) for (auto& f : monos[x.first]) if (atoms[f.first].kind == INV && f.first > best) { best = f.first; inv = f.first; }
    if (inv >= 0) {
      int e = 0; for (auto& x : p->t) e = std::max(e, monoexp(x.first, inv));
      if (keepsign && !atompos(inv) && e % 2) e++;
      vector<PP> pw{pconst(1)}; for (int i = 1; i <= e; i++) pw.push_back(pmul(pw.back(), atoms[inv].arg));
      map<int, std::unordered_map<int, mpq_class>> by;
      for (auto& x : p->t) { int j = monoexp(x.first, inv); by[e - j][monomul(x.first, monopow1(inv, -j))] += x.second; }
      PP acc = pconst(0);
      for (auto& g : by) acc = padd(acc, pmul(collect(g.second), pw[g.first]));
      p = acc; continue;
    }
    map<int, int> neg;
    for (auto& x : p->t) for (auto& f : monos[x.first]) if (f.second < 0) neg[f.first] = std::min(neg.count(f.first) ? neg[f.first] : 0, f.second);
    if (neg.empty()) return p;
    Mono m; for (auto& k : neg) { int e = -k.second; if (keepsign && !atompos(k.first) && e % 2) e++; m.push_back({k.first, e}); }
    p = pmonomul(p, mono(m));
  }
  return p;
}
static bool pzero(PP p) { if (p->zero()) return true; if (p->isconst()) return false; return clear(p, false)->zero(); }

// ------------------------------------------------------------------ terms
enum Op { ONE, CST, VARR, ADD, SUB, MUL, DIV, NEG, SQ };
struct Term { Op op; int a, b; PP p; };
static vector<Term> terms(1);
static std::unordered_map<u64, int> natcache; static map<string, int> cstcache;
static mpq_class snap(double d) {
  mpq_class ex(d);
  if (d == 0) return ex;
  double r = nearbyint(d); if (r == d) return ex;
  // simplest rational within relative 1e-13 (continued fraction)
  mpq_class x = abs(ex), tol = x * mpq_class(1e-13);
  mpz_class h0 = 1, k0 = 0, h1, k1; mpq_class y = x; mpz_class a = y.get_num() / y.get_den(); h1 = a; k1 = 1;
  for (int i = 0; i < 60; i++) {
    mpq_class c(h1, k1); c.canonicalize();
    if (abs(c - x) <= tol) { if (k1 * k1 * h1 < mpz_class("1000000000000000000000000") ) return d < 0 ? mpq_class(-c) : c; else return ex; }
    y = 1 / (y - a); a = y.get_num() / y.get_den();
    mpz_class h2 = a * h1 + h0, k2 = a * k1 + k0; h0 = h1; k0 = k1; h1 = h2; k1 = k2;
  }
  return ex;
}
static int newterm(Op o, int a, int b, PP p) { terms.push_back({o, a, b, p}); return terms.size() - 1; }
static int termof(double d) {
  if (boxed(d)) return bits(d) & 0xFFFFFFFFFFFFull;
  auto it = natcache.find(bits(d)); if (it != natcache.end()) return it->second;
  int t = newterm(CST, 0, 0, intern(pconst(snap(d)))); natcache[bits(d)] = t; return t;
}
static PP polyof(double d) { return terms[termof(d)].p; }
static double wrap(Op o, int a, int b, PP p) {
  if (p->isconst()) {
    mpq_class c = p->cval(); double d = c.get_d();
    if (mpq_class(d) == c) return d;
    string s = c.get_str(); auto it = cstcache.find(s); if (it != cstcache.end()) return boxup(it->second);
    int t = newterm(CST, 0, 0, intern(p)); cstcache[s] = t; return boxup(t);
  }
  return boxup(newterm(o, a, b, intern(p)));
}
static double wrapp(PP p) { return wrap(ONE, 0, 0, p); }

// ------------------------------------------------------------------ path state
enum Rel { LT, LE, EQ, NE };
struct Con { PP d; Rel r; };
static vector<Con> pc;
static vector<int> prefix; static size_t dpos = 0; static vector<int> decisions; static vector<vector<int>> newprefixes;
static map<string, int> varatom; static vector<pair<string, int>> choices;
static std::set<string> labels; static vector<string> notes;
static bool generic = false; static long ngeneric = 0;
static std::mt19937_64 rng;
static long st_queries = 0, st_sat = 0, st_unsat = 0, st_unknown = 0, st_oblig = 0, st_nf = 0, st_raw = 0, st_rawunk = 0, st_forks = 0, st_interval = 0, st_sampled = 0, st_ops = 0, st_near = 0;
static double st_time = 0;
struct Chk { string what; double a, b; };
static vector<pair<string, pair<PP, PP>>> chkvals;   // recorded operands, for translation validation
static vector<string> covered;
static string outfile, tierS; static int rawbudget = 6; static double pathdeadline = 0, pathstart = 0;
static int qtimeout_ms = 20000;

// ------------------------------------------------------------------ numeric evaluation
static double evalpoly(const Poly& p, vector<double>& av) {
  double r = 0; for (auto& x : p.t) { double m = x.second.get_d(); for (auto& f : monos[x.first]) { double v = av[f.first]; int e = f.second; if (e < 0) { v = 1 / v; e = -e; } while (e--) m *= v; } r += m; }
  return r;
}
static void completeatoms(vector<double>& av) {
  av.resize(atoms.size());
  for (size_t i = 0; i < atoms.size(); i++) {
    if (atoms[i].kind == SQRT) av[i] = sqrt(evalpoly(*atoms[i].arg, av));
    if (atoms[i].kind == INV) av[i] = 1 / evalpoly(*atoms[i].arg, av);
  }
}
static bool holds(const Con& c, vector<double>& av, double margin) {
  double v = evalpoly(*c.d, av); if (std::isnan(v)) return false;
  double mag = 0; for (auto& x : c.d->t) { double m = x.second.get_d(); for (auto& f : monos[x.first]) m *= pow(av[f.first], f.second); mag = std::max(mag, fabs(m)); }
  double eps = margin * std::max(mag, 1e-30);
  switch (c.r) { case LT: return v < -eps; case LE: return v <= (c.d->isconst() ? 0 : -eps * 0.0) + (margin > 0 ? -0.0 : 1e-12); case EQ: return fabs(v) <= 1e-12 * std::max(1.0, mag); case NE: return fabs(v) > eps; }
  return false;
}
static map<int, double> hint;
static bool sample(const vector<Con>& extra, vector<double>& av, int tries) {
  for (int t = 0; t < tries; t++) {
    av.assign(atoms.size(), 0);
    for (size_t i = 0; i < atoms.size(); i++) if (atoms[i].kind == VAR) {
      double lo = atoms[i].lo, hi = atoms[i].hi; int den = 64;
      double u = (double)(1 + rng() % (den - 1)) / den; if (t % 5 == 4 && rng() % 3 == 0) u = (rng() % 2) ? 0.0 : 1.0;
      av[i] = (lo == hi) ? lo : lo + (hi - lo) * u;
    }
    completeatoms(av); bool ok = true;
    for (auto& c : pc) if (!holds(c, av, 1e-7)) { ok = false; break; }
    if (ok) for (auto& c : extra) if (!holds(c, av, 1e-7)) { ok = false; break; }
    if (ok) return true;
  }
  return false;
}
// ------------------------------------------------------------------ SMT
static string qstr(const mpq_class& c0) {
  mpq_class c = c0; bool neg = sgn(c) < 0; if (neg) c = -c;
  string s = c.get_den() == 1 ? c.get_num().get_str() + ".0" : "(/ " + c.get_num().get_str() + ".0 " + c.get_den().get_str() + ".0)";
  return neg ? "(- " + s + ")" : s;
}
static string aname(int a) { return "a" + std::to_string(a); }
static string smtpoly(const Poly& p) {
  if (p.t.empty()) return "0.0";
  string s; if (p.t.size() > 1) s = "(+";
  for (auto& x : p.t) {
    string m; int n = 0;
    for (auto& f : monos[x.first]) for (int i = 0; i < f.second; i++) { m += " " + aname(f.first); n++; }
    string t = n == 0 ? qstr(x.second) : (x.second == 1 && n == 1) ? m.substr(1) : "(* " + (x.second == 1 ? string("") : qstr(x.second)) + m + ")";
    s += (p.t.size() > 1 ? " " : "") + t;
  }
  if (p.t.size() > 1) s += ")";
  return s;
}
static void atomsin(const Poly& p, std::set<int>& s) {
  for (auto& x : p.t) for (auto& f : monos[x.first]) if (s.insert(f.first).second && atoms[f.first].arg) atomsin(*clear(atoms[f.first].arg), s);
}
static string smtcon(PP d, Rel r) {
  string p = smtpoly(*clear(d));
  switch (r) { case LT: return "(< " + p + " 0.0)"; case LE: return "(<= " + p + " 0.0)"; case EQ: return "(= " + p + " 0.0)"; default: return "(not (= " + p + " 0.0))"; }
}
struct Solver {
  int in = -1, out = -1; pid_t pid = 0; string buf; 
  void start() {
    int a[2], b[2]; if (pipe(a) || pipe(b)) abort();
    pid = fork();
    if (!pid) { prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(a[0], 0); dup2(b[1], 1); int n = open("/dev/null", O_WRONLY); dup2(n, 2); for (int f = 3; f < 64; f++) close(f); execlp("z3-new", "z3-new", "-in", "-memory:3000", (char*)0); execlp("z3", "z3", "-in", (char*)0); _exit(127); }
    close(a[0]); close(b[1]); in = a[1]; out = b[0]; signal(SIGPIPE, SIG_IGN);
  }
  void send(const string& s) { size_t o = 0; while (o < s.size()) { ssize_t n = write(in, s.data() + o, s.size() - o); if (n <= 0) break; o += n; } }
  string line(double to) {
    double end = now() + to;
    for (;;) {
      size_t k = buf.find('\n'); if (k != string::npos) { string l = buf.substr(0, k); buf.erase(0, k + 1); return l; }
      struct pollfd p{out, POLLIN, 0}; double left = end - now(); if (left <= 0) return "timeout";
      int r = poll(&p, 1, (int)(left * 1000) + 1); if (r <= 0) return "timeout";
      char t[65536]; ssize_t n = read(out, t, sizeof t); if (n <= 0) return "eof"; buf.append(t, n);
    }
  }
  void stop() { if (pid) { kill(pid, SIGKILL); waitpid(pid, 0, 0); close(in); close(out); pid = 0; buf.clear(); } }
};
static Solver Z;
// returns 1 sat, 0 unsat, -1 unknown
static int smt(const string& body, const std::set<int>& as, int timeout_ms, const vector<string>* fixed = nullptr) {
  double t0 = now(); 
  if (!Z.pid) { Z.start(); }
  std::ostringstream o; o << "(reset)\n(set-option :timeout " << timeout_ms << ")\n";
  for (int a : as) o << "(declare-const " << aname(a) << " Real)\n";
  for (int a : as) {
    const Atom& A = atoms[a];
    if (A.kind == VAR) { if (A.lo > -INFINITY) o << "(assert (>= " << aname(a) << " " << qstr(snap(A.lo)) << "))\n"; if (A.hi < INFINITY) o << "(assert (<= " << aname(a) << " " << qstr(snap(A.hi)) << "))\n"; }
    else if (A.kind == SQRT) { o << "(assert (" << (A.lo > 0 ? ">" : ">=") << " " << aname(a) << " 0.0))\n(assert (= (* " << aname(a) << " " << aname(a) << ") " << smtpoly(*clear(A.arg)) << "))\n"; }
  }
  o << body << "(check-sat)\n";
  st_queries++; Z.send(o.str());
  string r; for (;;) { r = Z.line(timeout_ms / 1000.0 + 5); if (r.rfind("(error", 0) == 0) { r = "unknown"; Z.stop(); break; } if (r == "sat" || r == "unsat" || r == "unknown") break; if (r == "timeout" || r == "eof") { Z.stop(); r = "unknown"; break; } }
  st_time += now() - t0;
  if (r == "sat") { st_sat++; return 1; } if (r == "unsat") { st_unsat++; return 0; } st_unknown++; return -1;
}
static string getvals(const std::set<int>& as, map<int, double>& m) {
  Z.send("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 17)\n");
  for (int a : as) {
    Z.send("(get-value (" + aname(a) + "))\n"); string l = Z.line(5); if (l == "timeout" || l == "eof") return "fail";
    int depth = 0; string full = l; for (char c : l) depth += (c == '(') - (c == ')');
    while (depth > 0) { l = Z.line(5); if (l == "timeout" || l == "eof") return "fail"; full += " " + l; for (char c : l) depth += (c == '(') - (c == ')'); }
    // ((a3 (/ 1.0 3.0))) or ((a3 (- 1.5?)))
    vector<string> tk; string cur; for (char c : full) { if (c == '(' || c == ')' || c == ' ' || c == '?') { if (!cur.empty()) tk.push_back(cur); cur.clear(); } else cur += c; } if (!cur.empty()) tk.push_back(cur);
    double v = 0; bool neg = false, div = false; vector<double> nums; 
    for (size_t i = 1; i < tk.size(); i++) { if (tk[i] == "-") neg = !neg; else if (tk[i] == "/") div = true; else nums.push_back(atof(tk[i].c_str())); }
    if (nums.empty()) return "fail"; v = nums[0]; if (div && nums.size() > 1) v = nums[0] / nums[1]; m[a] = neg ? -v : v;
  }
  return "";
}
static string pcbody(std::set<int>& as) {
  string b; for (auto& c : pc) { atomsin(*clear(c.d), as); b += "(assert " + smtcon(c.d, c.r) + ")\n"; } return b;
}
// is pc /\ extra satisfiable?
static map<string, int> feascache;
static bool robustmodel = true;   // the last model satisfies every strict constraint with a margin
static int feasible(const vector<Con>& extra, vector<double>* model = nullptr, int to = 0) {
  robustmodel = true; vector<double> av; if (sample(extra, av, 400)) { st_sampled++; if (model) *model = av; return 1; }
  std::set<int> as; string b = pcbody(as);
  for (auto& c : extra) { atomsin(*clear(c.d), as); b += "(assert " + smtcon(c.d, c.r) + ")\n"; }
  int r = -1;
  if (model) {   // an interior point first: its floating-point replay does not depend on rounding
    string bm; auto add = [&](const Con& c) { mpq_class k = 0; if (c.r == LT || c.r == LE) { PP q = clear(c.d); for (auto& x : q->t) k = std::max(k, mpq_class(abs(x.second))); k /= 10000; } bm += k == 0 ? "(assert " + smtcon(c.d, c.r) + ")\n" : "(assert (<= " + smtpoly(*clear(c.d)) + " " + qstr(-k) + "))\n"; };
    for (auto& c : pc) add(c); for (auto& c : extra) add(c);
    r = smt(bm, as, 3000); if (r != 1) { robustmodel = false; r = -1; }
  }
  if (r != 1) r = smt(b, as, to ? to : qtimeout_ms);
  if (r == 1 && model) {
    map<int, double> m; if (getvals(as, m) != "") return -1;
    model->assign(atoms.size(), 0); for (size_t i = 0; i < atoms.size(); i++) if (atoms[i].kind == VAR) (*model)[i] = m.count(i) ? m[i] : (atoms[i].lo == atoms[i].hi ? atoms[i].lo : atoms[i].lo + (atoms[i].hi - atoms[i].lo) * 0.40625);
    completeatoms(*model);
  }
  return r;
}
// ------------------------------------------------------------------ report
static string jesc(const string& s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static string valsjson(vector<double>& av, const map<string, double>* extra = nullptr) {
  std::ostringstream o; o.precision(17); o << "{"; bool f = true;
  for (auto& v : varatom) { o << (f ? "" : ",") << "\"" << jesc(v.first) << "\":" << av[v.second]; f = false; }
  for (auto& c : choices) { o << (f ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; f = false; }
  if (extra) for (auto& c : *extra) { o << (f ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; f = false; }
  o << "}"; return o.str();
}
static string extrajson;
static void emit(const string& status, const string& msg) {
  std::ofstream o(outfile); o.precision(17);
  o << "{\"status\":\"" << status << "\",\"msg\":\"" << jesc(msg) << "\",\"queries\":" << st_queries << ",\"sat\":" << st_sat << ",\"unsat\":" << st_unsat << ",\"unknown\":" << st_unknown
    << ",\"obligations\":" << st_oblig << ",\"normal_form\":" << st_nf << ",\"raw_unsat\":" << st_raw << ",\"raw_unknown\":" << st_rawunk << ",\"forks\":" << st_forks << ",\"interval\":" << st_interval
    << ",\"near\":" << st_near << ",\"sampled_sat\":" << st_sampled << ",\"generic\":" << ngeneric << ",\"ops\":" << st_ops << ",\"terms\":" << terms.size() << ",\"vars\":" << varatom.size() << ",\"solver_s\":" << st_time << ",\"path_s\":" << now() - pathstart;
  o << ",\"decisions\":["; for (size_t i = 0; i < decisions.size(); i++) o << (i ? "," : "") << decisions[i]; o << "]";
  o << ",\"labels\":["; { bool f = true; for (auto& l : labels) { o << (f ? "" : ",") << "\"" << jesc(l) << "\""; f = false; } } o << "]";
  o << ",\"covered\":["; for (size_t i = 0; i < covered.size(); i++) o << (i ? "," : "") << "\"" << jesc(covered[i]) << "\""; o << "]";
  o << ",\"notes\":["; for (size_t i = 0; i < notes.size(); i++) o << (i ? "," : "") << "\"" << jesc(notes[i]) << "\""; o << "]";
  o << ",\"new\":["; for (size_t i = 0; i < newprefixes.size(); i++) { o << (i ? ",[" : "["); for (size_t j = 0; j < newprefixes[i].size(); j++) o << (j ? "," : "") << newprefixes[i][j]; o << "]"; } o << "]";
  o << extrajson << "}\n"; o.close();
}
static void end_path(const string& status, const string& msg) {
  if (status == "ok") {
    // vacuity: the path condition must have a model; also used to replay the path natively
    vector<double> av; int r = feasible({}, &av);
    if (r == 0) { emit("infeasible", "path condition unsatisfiable"); Z.stop(); fflush(stdout); _exit(0); }
    if (r == 1) {
      extrajson = string(",\"robust\":") + (robustmodel ? "1" : "0") + ",\"witness\":" + valsjson(av);
      std::ostringstream o; o.precision(17); o << ",\"values\":["; size_t n = 0;
      for (auto& c : chkvals) { completeatoms(av); double a = evalpoly(*c.second.first, av), b = evalpoly(*c.second.second, av); if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b)) continue; o << (n ? "," : "") << "[\"" << jesc(c.first) << "\"," << a << "," << b << "]"; if (++n >= 400) break; }
      o << "]"; extrajson += o.str();
    }
  }
  emit(status, msg); Z.stop(); fflush(stdout); _exit(0);
}
static vector<Con> noextra;
[[noreturn]] static void violation(const string& what, vector<double>* av, const map<string, double>* extra = nullptr) {
  vector<double> m; int r = 1;
  if (!av) { r = feasible({}, &m); av = &m; }
  if (r == 0) end_path("infeasible", "path condition unsatisfiable");
  if (r < 0) end_path("inconclusive", "possible violation, no model found: " + what);
  extrajson = ",\"cex\":" + valsjson(*av, extra); end_path("violation", what);
}
// ------------------------------------------------------------------ decisions
static int decide(const vector<int>& options) {   // options: feasible alternatives, first is taken
  if (dpos < prefix.size()) { int d = prefix[dpos++]; decisions.push_back(d); return d; }
  for (size_t i = 1; i < options.size(); i++) { vector<int> p = decisions; p.push_back(options[i]); newprefixes.push_back(p); }
  dpos++; decisions.push_back(options[0]); if (options.size() > 1) st_forks++; return options[0];
}
static bool replaying() { return dpos < prefix.size(); }
// sign knowledge per normalised polynomial: mask bit0 <0, bit1 =0, bit2 >0
static std::unordered_map<const Poly*, int> signmask;
static PP posnorm(PP d, bool& flip) {
  d = clear(d); flip = false; if (d->zero()) return d;
  map<int, int> mn; bool first = true;
  for (auto& x : d->t) {
    map<int, int> cur; for (auto& f : monos[x.first]) if (atompos(f.first)) cur[f.first] = f.second;
    if (first) { mn = cur; first = false; } else { for (auto it = mn.begin(); it != mn.end();) { auto k = cur.find(it->first); if (k == cur.end()) it = mn.erase(it); else { it->second = std::min(it->second, k->second); ++it; } } }
  }
  if (!mn.empty()) { Mono m; for (auto& k : mn) m.push_back({k.first, -k.second}); d = pmonomul(d, mono(m)); }
  mpq_class c = d->t[0].second; flip = sgn(c) < 0; d = pscale(d, 1 / c); return intern(d);
}
static int maskof(PP d, PP& key, bool& flip) {
  key = posnorm(d, flip); int m = 7; auto it = signmask.find(key.get()); if (it != signmask.end()) m = it->second;
  if (key->isconst()) { m = key->zero() ? 2 : 4; }
  else { Itv i = interval(*key); int im = 7; if (i.lo > 0) im = 4; else if (i.hi < 0) im = 1; else if (i.lo >= 0) im = 6; else if (i.hi <= 0) im = 3; if ((m & im) != m) st_interval++; m &= im; }
  return m;
}
static int flipm(int m) { return ((m & 1) << 2) | (m & 2) | ((m & 4) >> 2); }
// truth of (d in mask) on this path; forks if necessary
static Con conof(PP d, int mask) {
  switch (mask) { case 1: return {d, LT}; case 3: return {d, LE}; case 2: return {d, EQ}; case 5: return {d, NE}; case 4: return {pscale(d, -1), LT}; case 6: return {pscale(d, -1), LE}; }
  return {pconst(mask == 7 ? -1 : 1), LE};
}
static bool decide_sign(PP d, int want) {
  PP key; bool flip; int m = maskof(d, key, flip); int w = flip ? flipm(want) : want;
  if ((m & ~w) == 0) return true;
  if ((m & w) == 0) return false;
  int yes = m & w, no = m & ~w;
  if (generic && (w == 2 || w == 5)) { ngeneric++; signmask[key.get()] = m & 5; pc.push_back(conof(key, 5)); return w == 5; }
  bool take;
  if (replaying()) take = decide({}) != 0;
  else {
    vector<int> opt; int fy = feasible({conof(key, yes)}); int fn = fy == 0 ? 1 : feasible({conof(key, no)});
    if (fy != 0) opt.push_back(1); if (fn != 0) opt.push_back(0);
    take = decide(opt) != 0;
  }
  signmask[key.get()] = take ? yes : no; pc.push_back(conof(key, take ? yes : no)); return take;
}
static void die_poison(const char* where) { violation(string("uninitialised value used in ") + where, nullptr); }

// ------------------------------------------------------------------ operations
static bool nonfin(double d) { return !boxed(d) && !(d - d == 0); }
static bool smallint(double d) { return d == nearbyint(d) && fabs(d) < 1099511627776.0; }
static int signof(double d) { if (!boxed(d)) return d > 0 ? 1 : d < 0 ? -1 : 0; Itv i = interval(*polyof(d)); return i.lo > 0 ? 1 : i.hi < 0 ? -1 : 0; }
#define NANV frombits(0x7FF8ull << 48)
static void tick() { if ((++st_ops & 1023) == 0 && pathdeadline && now() > pathdeadline) end_path("inconclusive", "path time limit"); }
extern "C" {
double __sym_fadd(double a, double b) {
  tick(); if (poison(a) || poison(b)) return frombits(POISON);
  if (nonfin(a) || nonfin(b)) { if (boxed(a)) a = 1; if (boxed(b)) b = 1; return a + b; }
  if (!boxed(a) && !boxed(b) && smallint(a) && smallint(b)) return a + b;
  if (!boxed(a) && a == 0) return b; if (!boxed(b) && b == 0) return a;
  int x = termof(a), y = termof(b); return wrap(ADD, x, y, padd(terms[x].p, terms[y].p));
}
double __sym_fsub(double a, double b) {
  tick(); if (poison(a) || poison(b)) return frombits(POISON);
  if (nonfin(a) || nonfin(b)) { if (boxed(a)) a = 1; if (boxed(b)) b = 1; return a - b; }
  if (!boxed(a) && !boxed(b) && smallint(a) && smallint(b)) return a - b;
  if (!boxed(b) && b == 0) return a;
  int x = termof(a), y = termof(b); return wrap(SUB, x, y, padd(terms[x].p, terms[y].p, -1));
}
double __sym_fmul(double a, double b) {
  tick(); if (poison(a) || poison(b)) return frombits(POISON);
  if (nonfin(a) || nonfin(b)) { int s; if (boxed(a)) { s = signof(a); if (!s) return NANV; a = s; } if (boxed(b)) { s = signof(b); if (!s) return NANV; b = s; } return a * b; }
  if (!boxed(a) && a == 0) return 0; if (!boxed(b) && b == 0) return 0;
  if (!boxed(a) && !boxed(b) && smallint(a) && smallint(b) && smallint(a * b)) return a * b;
  if (!boxed(a) && a == 1) return b; if (!boxed(b) && b == 1) return a;
  int x = termof(a), y = termof(b); return wrap(MUL, x, y, pmul(terms[x].p, terms[y].p));
}
double __sym_fneg(double a) {
  if (poison(a)) return a; if (!boxed(a)) return -a; int x = termof(a); return wrap(NEG, x, 0, pscale(terms[x].p, -1));
}
}
static PP invpoly(PP d0) {
  PP d = d0;
  // d = num / den with den monomials or INV atoms
  PP num = clear(d, false);
  // den = num / d : find multiplier by clearing "1" alongside: recompute multiplier
  PP mult = pconst(1);
  {
    PP p = d;
    for (int g = 0; g < 200; g++) {
      int inv = -1; for (auto& x : p->t) for (auto& f : monos[x.first]) if (atoms[f.first].kind == INV && f.first > inv) inv = f.first;
      if (inv >= 0) { p = clear(p, false); // general: multiply by arg^e
        // fall back: compute multiplier by exponents
        PP q = d; mult = pconst(1);
        for (int h = 0; h < 200; h++) {
          int iv = -1; for (auto& x : q->t) for (auto& f : monos[x.first]) if (atoms[f.first].kind == INV && f.first > iv) iv = f.first;
          if (iv < 0) break; int e = 0; for (auto& x : q->t) e = std::max(e, monoexp(x.first, iv));
          vector<PP> pw{pconst(1)}; for (int i = 1; i <= e; i++) pw.push_back(pmul(pw.back(), atoms[iv].arg));
          map<int, std::unordered_map<int, mpq_class>> by; for (auto& x : q->t) { int j = monoexp(x.first, iv); by[e - j][monomul(x.first, monopow1(iv, -j))] += x.second; }
          PP acc = pconst(0); for (auto& gg : by) acc = padd(acc, pmul(collect(gg.second), pw[gg.first]));
          q = acc; mult = pmul(mult, pw[e]);
        }
        map<int, int> neg; for (auto& x : q->t) for (auto& f : monos[x.first]) if (f.second < 0) neg[f.first] = std::min(neg.count(f.first) ? neg[f.first] : 0, f.second);
        Mono m; for (auto& k : neg) m.push_back({k.first, -k.second}); mult = pmonomul(mult, mono(m)); num = pmonomul(q, mono(m)); break; }
      map<int, int> neg; for (auto& x : p->t) for (auto& f : monos[x.first]) if (f.second < 0) neg[f.first] = std::min(neg.count(f.first) ? neg[f.first] : 0, f.second);
      if (neg.empty()) break; Mono m; for (auto& k : neg) m.push_back({k.first, -k.second}); int mi = mono(m); p = pmonomul(p, mi); mult = pmonomul(mult, mi);
    }
  }
  // monomial content of num (all atoms)
  map<int, int> mn; bool first = true;
  for (auto& x : num->t) {
    map<int, int> cur; for (auto& f : monos[x.first]) cur[f.first] = f.second;
    if (first) { mn = cur; first = false; } else for (auto it = mn.begin(); it != mn.end();) { auto k = cur.find(it->first); if (k == cur.end()) it = mn.erase(it); else { it->second = std::min(it->second, k->second); ++it; } }
  }
  Mono m; for (auto& k : mn) m.push_back({k.first, -k.second}); int im = mono(m);
  PP rest = pmonomul(num, im); mpq_class c = rest->t[0].second; rest = intern(pscale(rest, 1 / c));
  PP res = pscale(pmonomul(mult, im), 1 / c);
  if (!rest->isconst()) {
    int at = -1; for (size_t i = 0; i < atoms.size(); i++) if (atoms[i].kind == INV && atoms[i].arg == rest) at = i;
    if (at < 0) {
      Itv i = interval(*rest); PP key; bool fl; int mk_ = maskof(rest, key, fl); if (fl) mk_ = flipm(mk_);
      Atom A; A.kind = INV; A.name = "inv"; A.arg = rest;
      if (mk_ == 4) { A.lo = i.hi < INFINITY ? 1 / i.hi : 1e-300; A.hi = i.lo > 0 ? 1 / i.lo : INFINITY; if (A.lo <= 0) A.lo = 1e-300; }
      else if (mk_ == 1) { A.hi = i.lo > -INFINITY ? 1 / i.lo : -1e-300; A.lo = i.hi < 0 ? 1 / i.hi : -INFINITY; }
      else { A.lo = -INFINITY; A.hi = INFINITY; }
      at = atoms.size(); atoms.push_back(A);
    }
    res = pmonomul(res, monopow1(at, 1));
  }
  return res;
}
extern "C" {
double __sym_fdiv(double a, double b) {
  tick(); if (poison(a) || poison(b)) return frombits(POISON);
  if (nonfin(a) || nonfin(b)) { int s; if (boxed(b) && nonfin(a)) { s = signof(b); if (!s) return NANV; b = s; } if (boxed(a)) a = signof(a); return a / b; }
  if (!boxed(b) && b == 0) { if (boxed(a)) { int s = signof(a); return s ? s / b : NANV; } return a / b; }
  if (!boxed(b) && b == 1) return a;
  int x = termof(a), y = termof(b);
  if (terms[y].p->isconst()) return wrap(DIV, x, y, pscale(terms[x].p, 1 / terms[y].p->cval()));
  if (decide_sign(terms[y].p, 2)) { int s = signof(a); if (!boxed(a) && a == 0) return NANV; return s ? s * INFINITY : NANV; }
  if (!boxed(a) && a == 0) return 0;
  return wrap(DIV, x, y, pmul(terms[x].p, invpoly(terms[y].p)));
}
double __sym_trunc(double a);
double __sym_frem(double a, double b) {
  if (!boxed(a) && !boxed(b)) return fmod(a, b);
  double q = __sym_trunc(__sym_fdiv(a, b)); return __sym_fsub(a, __sym_fmul(q, b));
}
static double trunc_to(double a, int mode) {   // 0 trunc 1 floor 2 ceil 3 round
  if (poison(a)) die_poison("integer conversion");
  if (nonfin(a)) return a;
  PP p = polyof(a);
  auto f = [&](const mpq_class& c) -> mpz_class {
    mpz_class q; mpz_fdiv_q(q.get_mpz_t(), c.get_num_mpz_t(), c.get_den_mpz_t());
    if (mode == 1) return q; mpz_class ce; mpz_cdiv_q(ce.get_mpz_t(), c.get_num_mpz_t(), c.get_den_mpz_t());
    if (mode == 2) return ce; if (mode == 0) return sgn(c) < 0 ? ce : q;
    mpq_class h = abs(c) + mpq_class(1, 2); mpz_class r; mpz_fdiv_q(r.get_mpz_t(), h.get_num_mpz_t(), h.get_den_mpz_t()); return sgn(c) < 0 ? mpz_class(-r) : r; };
  if (p->isconst()) return f(p->cval()).get_d();
  Itv i = interval(*p); if (!(i.hi - i.lo < 400)) end_path("inconclusive", "integer conversion of an unbounded symbolic value");
  auto con = [&](long k, vector<Con>& cs) {
    PP lo, hi; bool slo, shi;   // range of p that maps to k
    mpq_class K(k);
    if (mode == 1 || (mode == 0 && k > 0)) { cs.push_back({padd(pconst(K), p, -1), LE}); cs.push_back({padd(p, pconst(K + 1), -1), LT}); }
    else if (mode == 2 || (mode == 0 && k < 0)) { cs.push_back({padd(pconst(K - 1), p, -1), LT}); cs.push_back({padd(p, pconst(K), -1), LE}); }
    else if (mode == 0) { cs.push_back({padd(pconst(K - 1), p, -1), LT}); cs.push_back({padd(p, pconst(K + 1), -1), LT}); }
    else { mpq_class h(1, 2); cs.push_back({padd(pconst(K - h), p, -1), LE}); cs.push_back({padd(p, pconst(K + h), -1), LT}); } };
  long a0 = (long)floor(i.lo) - 1, a1 = (long)ceil(i.hi) + 1; long k;
  if (replaying()) k = decide({});
  else {
    vector<int> opt; for (long j = a0; j <= a1; j++) { vector<Con> cs; con(j, cs); bool dead = false; for (auto& c : cs) { Itv v = interval(*c.d); if (v.lo > 0) dead = true; } if (dead) continue; if (feasible(cs) != 0) opt.push_back(j); }
    if (opt.empty()) end_path("infeasible", "no integer value"); k = decide(opt);
  }
  vector<Con> cs; con(k, cs); for (auto& c : cs) pc.push_back(c);
  return k;
}
int64_t __sym_fptosi(double a) { double r = trunc_to(a, 0); if (!(fabs(r) < 9.2e18)) { if (boxed(a)) {} return INT64_MIN; } return (int64_t)r; }
double __sym_floor(double a) { return trunc_to(a, 1); }
double __sym_ceil(double a) { return trunc_to(a, 2); }
double __sym_round(double a) { return trunc_to(a, 3); }
double __sym_trunc(double a) { return trunc_to(a, 0); }
bool __sym_fcmp(int pred, double a, double b) {
  tick(); if (poison(a) || poison(b)) die_poison("a comparison");
  // LLVM: FALSE 0 OEQ 1 OGT 2 OGE 3 OLT 4 OLE 5 ONE 6 ORD 7 UNO 8 UEQ 9 UGT 10 UGE 11 ULT 12 ULE 13 UNE 14 TRUE 15
  bool nan = (!boxed(a) && a != a) || (!boxed(b) && b != b);
  if (nan) return pred >= 8;
  if (pred == 7) return true; if (pred == 8 || pred == 0) return false; if (pred == 15) return true;
  int want = 0; if (pred & 1) want |= 2; if (pred & 2) want |= 4; if (pred & 4) want |= 1;
  int s;
  if (nonfin(a) || nonfin(b)) { double x = boxed(a) ? 0 : a, y = boxed(b) ? 0 : b; s = x < y ? 1 : x > y ? 4 : 2; return s & want; }
  if (!boxed(a) && !boxed(b)) { s = a < b ? 1 : a > b ? 4 : 2; if (s == 2 || fabs(a - b) > 1e-9 * (fabs(a) + fabs(b))) return s & want; }
  PP d = padd(polyof(a), polyof(b), -1);
  return decide_sign(d, want);
}
double __sym_fabs(double a) {
  if (poison(a)) return a; if (!boxed(a)) return fabs(a);
  return decide_sign(polyof(a), 6) ? a : __sym_fneg(a);
}
double __sym_copysign(double a, double b) {
  if (poison(a) || poison(b)) return frombits(POISON);
  if (!boxed(a) && !boxed(b)) return copysign(a, b); a = __sym_fabs(a); bool neg = boxed(b) ? decide_sign(polyof(b), 1) : signbit(b); return neg ? __sym_fneg(a) : a;
}
double __sym_fmin(double a, double b) { return __sym_fcmp(4, b, a) ? b : a; }
double __sym_fmax(double a, double b) { return __sym_fcmp(2, b, a) ? b : a; }
bool __sym_fpclass(double a, int mask) {
  if (poison(a)) die_poison("a floating point class test");
  double d = boxed(a) ? 1.0 : a; int c;
  if (std::isnan(d)) c = 3; else if (std::isinf(d)) c = d < 0 ? 4 : 512; else if (boxed(a)) { bool z = decide_sign(polyof(a), 2); if (z) c = 0x60; else c = decide_sign(polyof(a), 1) ? 8 : 256; }
  else if (d == 0) c = signbit(d) ? 32 : 64; else c = d < 0 ? 8 : 256;
  return c & mask;
}
double __sym_sqrt(double a) {
  if (poison(a)) return a; if (!boxed(a) && nonfin(a)) return sqrt(a);
  int x = termof(a); PP p = terms[x].p;
  if (p->isconst()) {
    mpq_class c = p->cval(); if (sgn(c) < 0) return NANV;
    mpz_class n = sqrt(c.get_num()), d = sqrt(c.get_den()); if (n * n == c.get_num() && d * d == c.get_den()) return wrap(SQ, x, 0, pconst(mpq_class(n, d)));
  } else {
    PP key; bool fl; int m = maskof(p, key, fl); if (fl) m = flipm(m);
    // sums of even powers with positive coefficients are >= 0
    bool sos = true; for (auto& t : p->t) { if (sgn(t.second) < 0) sos = false; for (auto& f : monos[t.first]) if (f.second % 2 && !atompos(f.first)) sos = false; }
    if (sos) m &= 6;
    if (m & 1) { // may be negative, syntactically; a sum of squares of polynomials is not: ask
      if (decide_sign(p, 1)) return NANV; }
  }
  // extract even powers of positive atoms
  map<int, int> mn; bool first = true;
  for (auto& t : p->t) { map<int, int> cur; for (auto& f : monos[t.first]) if (atompos(f.first)) cur[f.first] = f.second;
    if (first) { mn = cur; first = false; } else { std::set<int> ks; for (auto& k : mn) ks.insert(k.first); for (auto& k : cur) ks.insert(k.first); for (int k : ks) { int v = std::min(mn.count(k) ? mn[k] : 0, cur.count(k) ? cur[k] : 0); mn[k] = v; } } }
  Mono out, ino; for (auto& k : mn) { int e = k.second / 2; if (e) { out.push_back({k.first, e}); ino.push_back({k.first, -2 * e}); } }
  PP arg = pmonomul(p, mono(ino)); 
  mpq_class sc(1); { mpq_class c = abs(arg->t[0].second); mpz_class n = sqrt(c.get_num()), d = sqrt(c.get_den()); if (n * n == c.get_num() && d * d == c.get_den()) { sc = mpq_class(n, d); sc.canonicalize(); arg = pscale(arg, 1 / c); } }
  arg = intern(arg);
  // single even monomial: |x|
  if (arg->isconst() && arg->cval() == 1) { vector<pair<int, mpq_class>> t{{mono(out), sc}}; return wrap(SQ, x, 0, mk(std::move(t))); }
  if (arg->t.size() == 1 && arg->t[0].second == 1) {
    bool even = true; Mono h; for (auto& f : monos[arg->t[0].first]) { if (f.second % 2) even = false; h.push_back({f.first, f.second / 2}); }
    if (even) { vector<pair<int, mpq_class>> t{{monomul(mono(h), mono(out)), sc}}; return __sym_fabs(wrap(SQ, x, 0, mk(std::move(t)))); }
  }
  int at = -1; for (size_t i = 0; i < atoms.size(); i++) if (atoms[i].kind == SQRT && atoms[i].arg == arg) at = i;
  if (at < 0) {
    Itv i = interval(*arg); Atom A; A.kind = SQRT; A.name = "sqrt"; A.arg = arg; A.hi = i.hi < INFINITY ? sqrt(std::max(0.0, i.hi)) * (1 + 1e-12) : INFINITY;
    A.lo = i.lo > 0 ? sqrt(i.lo) * (1 - 1e-12) : 0;
    if (A.lo <= 0) { bool z = decide_sign(arg, 2); if (z) return 0.0; A.lo = 1e-300; }
    for (size_t k = 0; k < atoms.size(); k++) if (atoms[k].kind == SQRT && atoms[k].arg == arg) at = k;
    if (at < 0) { at = atoms.size(); atoms.push_back(A); }
  }
  out.push_back({at, 1}); std::sort(out.begin(), out.end()); vector<pair<int, mpq_class>> t{{mono(out), sc}};
  return wrap(SQ, x, 0, mk(std::move(t)));
}
double __sym_hypot(double a, double b) { return __sym_sqrt(__sym_fadd(__sym_fmul(a, a), __sym_fmul(b, b))); }
double __sym_fdim(double a, double b) { return __sym_fcmp(2, a, b) ? __sym_fsub(a, b) : 0.0; }
double __sym_pow(double a, double b) {
  if (poison(a) || poison(b)) return frombits(POISON);
  if (boxed(b)) { PP p = polyof(b); if (!p->isconst()) end_path("inconclusive", "pow with symbolic exponent"); b = p->cval().get_d(); }
  if (!boxed(a) && (nonfin(a) || b != nearbyint(b))) return pow(a, b);
  if (b == 0.5) return __sym_sqrt(a);
  if (b != nearbyint(b) || fabs(b) > 64) end_path("inconclusive", "pow with non-integer exponent");
  double r = 1; for (int i = 0; i < fabs(b); i++) r = __sym_fmul(r, a); return b < 0 ? __sym_fdiv(1, r) : r;
}
void __sym_unsupported(const char* w) { end_path("inconclusive", string("unsupported operation: ") + w); }
void __sym_enter(unsigned char* flag, const char* name) { if (*flag) return; *flag = 1; covered.push_back(name); }
void* __sym_malloc(size_t n) { void* p = malloc(n); if (p && n < (1u << 26)) memset(p, 0xFF, n); return p; }
void* __sym_new(size_t n) { void* p = operator new(n); if (n < (1u << 26)) memset(p, 0xFF, n); return p; }
void* __sym_realloc(void* q, size_t n) { size_t o = q ? malloc_usable_size(q) : 0; void* p = realloc(q, n); if (p && n > o) memset((char*)p + o, 0xFF, n - o); return p; }
void __sym_assert(const char* what) { violation(string("assertion failed in the code under test: ") + what, nullptr); }
void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) { (void)fn; string s = string(e) + " at " + f + ":" + std::to_string(l); violation("assertion failed: " + s, nullptr); }
}

namespace std { void __glibcxx_assert_fail(const char* f, int l, const char*, const char* c) noexcept { violation("assertion failed: " + string(c ? c : "?") + " at " + f + ":" + to_string(l), nullptr); abort(); } }
// memory errors found by AddressSanitizer (harnesses built with it) end the path as a violation
extern "C" const char* __asan_get_report_description() __attribute__((weak));
extern "C" void __asan_on_error() { static bool once = false; if (once) return; once = true; violation(string("memory error: ") + (__asan_get_report_description ? __asan_get_report_description() : "?"), nullptr); }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:alloc_dealloc_mismatch=0:print_summary=0:max_malloc_fill_size=0:quarantine_size_mb=16:detect_odr_violation=0"; }
// ------------------------------------------------------------------ harness API
namespace sym {
bool native_mode() { return false; }
double var(const string& n, double lo, double hi) { return var(n.c_str(), lo, hi); }
double var(const char* name, double lo, double hi) {
  int at; auto it = varatom.find(name);
  if (it == varatom.end()) { at = atoms.size(); atoms.push_back({VAR, name, lo, hi, nullptr}); varatom[name] = at; } else at = it->second;
  vector<pair<int, mpq_class>> t{{monopow1(at, 1), mpq_class(1)}}; return boxup(newterm(VARR, at, 0, intern(mk(std::move(t)))));
}
int choice(const char* name, int n) {
  vector<int> o; for (int i = 0; i < n; i++) o.push_back(i);
  int r = decide(o); choices.push_back({name, r}); return r;
}
static void assume(PP d, int mask) {
  PP key; bool flip; int m = maskof(d, key, flip); int w = flip ? flipm(mask) : mask;
  if ((m & w) == 0) end_path("infeasible", "assumption"); if ((m & ~w) == 0) return; signmask[key.get()] = m & w; pc.push_back(conof(key, m & w));
}
void assume_le(double a, double b) { assume(padd(polyof(a), polyof(b), -1), 3); }
void assume_lt(double a, double b) { assume(padd(polyof(a), polyof(b), -1), 1); }
void assume_ne(double a, double b) { assume(padd(polyof(a), polyof(b), -1), 5); }
void discard() { end_path("discarded", ""); }
void generic_eq(bool on) { generic = on; }
void reach(const string& l) { labels.insert(l); }
void note(const string& s) { notes.push_back(s); }
bool is_poison(double a) { return poison(a); }
bool same(double a, double b, double) { if (poison(a) || poison(b) || nonfin(a) || nonfin(b)) return bits(a) == bits(b); return pzero(padd(polyof(a), polyof(b), -1)); }
bool is_zero(double a) { if (!boxed(a)) return a == 0; return pzero(polyof(a)); }
bool is_const(double a) { return !boxed(a) || polyof(a)->isconst(); }
string show(double a) {
  if (poison(a)) return "poison"; if (!boxed(a)) { char b[40]; snprintf(b, 40, "%.17g", a); return b; }
  string s; int n = 0; PP pa = polyof(a); for (auto& x : pa->t) { if (++n > 12) { s += " + ..."; break; } s += (s.empty() ? "" : " + ") + x.second.get_str(); for (auto& f : monos[x.first]) s += "*" + (atoms[f.first].kind == VAR ? atoms[f.first].name : atoms[f.first].name + std::to_string(f.first)) + (f.second != 1 ? "^" + std::to_string(f.second) : ""); }
  return s.empty() ? "0" : s;
}
// raw (un-normalised) encoding of a term DAG
struct Raw {
  std::ostringstream defs; std::map<int, string> nm; std::set<int> as; int n = 0; bool big = false;
  string go(int t) {
    auto it = nm.find(t); if (it != nm.end()) return it->second;
    if (n > 4000) { big = true; return "0.0"; }
    const Term T = terms[t]; string r;
    switch (T.op) {
      case CST: r = qstr(T.p->cval()); nm[t] = r; return r;
      case VARR: as.insert(T.a); r = aname(T.a); nm[t] = r; return r;
      case ADD: r = "(+ " + go(T.a) + " " + go(T.b) + ")"; break;
      case SUB: r = "(- " + go(T.a) + " " + go(T.b) + ")"; break;
      case MUL: r = "(* " + go(T.a) + " " + go(T.b) + ")"; break;
      case DIV: r = "(/ " + go(T.a) + " " + go(T.b) + ")"; break;
      case NEG: r = "(- " + go(T.a) + ")"; break;
      default: { atomsin(*clear(T.p), as); for (auto& x : T.p->t) for (auto& f : monos[x.first]) if (f.second < 0 || atoms[f.first].kind == INV) big = true; if (big) return "0.0"; r = smtpoly(*T.p); }
    }
    string k = "t" + std::to_string(t); defs << "(define-fun " << k << " () Real " << r << ")\n"; n++; nm[t] = k; return k;
  }
};
static void rawcheck(const string& what, const vector<pair<int, int>>& eqs) {
  if (rawbudget <= 0 || eqs.empty()) return; rawbudget--;
  Raw R; string dis; for (auto& e : eqs) dis += " (not (= " + R.go(e.first) + " " + R.go(e.second) + "))";
  if (R.big) return;
  std::set<int> as = R.as; string b = pcbody(as); b += R.defs.str(); b += "(assert (or" + dis + "))\n";
  int r = smt(b, as, tierS == "thorough" ? 8000 : 1500);
  if (r == 0) st_raw++; else if (r < 0) { st_rawunk++; Z.stop(); } else { end_path("inconclusive", "engine disagreement: raw encoding refutes normal form in " + what); }
}
static void record(const string& what, double a, double b) { if (chkvals.size() < 400) chkvals.push_back({what, {polyof(a), polyof(b)}}); }
static bool badval(double a) { return nonfin(a); }
// obligation: mask of d (shifted by tol) must hold
static void oblige(const string& what, PP d, bool eq, double tol) {
  // violated iff d > tol (or d < -tol when eq)
  mpq_class t = snap(tol); PP up = padd(d, pconst(t), -1), dn = padd(pscale(d, -1), pconst(t), -1);
  auto bad = [&](PP x) { Itv i = interval(*x); return i.hi > 0; };
  if (!bad(up) && (!eq || !bad(dn))) { st_interval++; return; }
  // search a large deviation first so that the counterexample is robust in floating point
  vector<double> best; double bv = 0; 
  for (double lvl : {1.0, 1e-2, 1e-3, 0.0}) {
    for (int side = 0; side < (eq ? 2 : 1); side++) {
      PP x = side ? dn : up; vector<double> av; if (lvl > 0) x = padd(x, pconst(mpq_class(lvl)), -1);
      if (sample({{pscale(x, -1), LT}}, av, 200)) { st_sampled++; // confirm by the solver, all inputs fixed
        std::set<int> as; string b; atomsin(*clear(x), as); for (int a : as) if (atoms[a].kind == VAR) b += "(assert (= " + aname(a) + " " + qstr(mpq_class(av[a])) + "))\n"; b += "(assert " + smtcon(pscale(x, -1), LT) + ")\n";
        if (smt(b, as, qtimeout_ms) != 0) violation(what, &av); }
    }
  }
  bool unk = false;
  for (double lvl : {1e-2, 0.0}) for (int side = 0; side < (eq ? 2 : 1); side++) {
    PP x = side ? dn : up; if (lvl > 0) x = padd(x, pconst(mpq_class(lvl)), -1);
    vector<double> av; int r = feasible({{pscale(x, -1), LT}}, &av); if (r == 1) violation(what, &av); if (r < 0 && lvl == 0) unk = true;
  }
  if (unk) end_path("inconclusive", "solver gave no verdict for: " + what);
}
void check_eq(const string& what, double a, double b, double tol) {
  st_oblig++;
  if (poison(a) || poison(b)) violation(what + ": uninitialised value", nullptr);
  if (badval(a) || badval(b)) { if (bits(a) == bits(b) && std::isinf(a)) return; violation(what + ": non-finite value (" + show(a) + " vs " + show(b) + ")", nullptr); }
  record(what, a, b);
  PP d = padd(polyof(a), polyof(b), -1);
  if (pzero(d)) { st_nf++; rawcheck(what, {{termof(a), termof(b)}}); return; }
  oblige(what, d, true, tol);
}
void check_le(const string& what, double a, double b, double tol) {
  st_oblig++;
  if (poison(a) || poison(b)) violation(what + ": uninitialised value", nullptr);
  if (badval(a) || badval(b)) { if (!std::isnan(a) && !std::isnan(b) && ((!boxed(a) && a == -INFINITY) || (!boxed(b) && b == INFINITY))) return; violation(what + ": non-finite value", nullptr); }
  record(what, a, b); PP d = padd(polyof(a), polyof(b), -1);
  if (d->isconst() && sgn(d->cval()) <= 0) { st_nf++; return; }
  oblige(what, d, false, tol);
}
void check(const string& what, bool c) { st_oblig++; if (!c) violation(what, nullptr); st_nf++; }
void fail(const string& what) { st_oblig++; violation(what, nullptr); }

typedef vector<PP> PRow;
static bool prow(const Row& r, PRow& o, const string& what) {
  o.clear(); for (double d : r) { if (poison(d)) violation(what + ": uninitialised value in a row", nullptr); if (nonfin(d)) { o.clear(); return false; } o.push_back(polyof(d)); } return true;
}
static PRow strip(PRow r) {
  // clear INV atoms with positive value
  for (int g = 0; g < 50; g++) {
    int inv = -1; for (auto& p : r) for (auto& x : p->t) for (auto& f : monos[x.first]) if (atoms[f.first].kind == INV && atompos(f.first) && f.first > inv) inv = f.first;
    if (inv < 0) break; int e = 0; for (auto& p : r) for (auto& x : p->t) e = std::max(e, monoexp(x.first, inv));
    vector<PP> pw{pconst(1)}; for (int i = 1; i <= e; i++) pw.push_back(pmul(pw.back(), atoms[inv].arg));
    for (auto& p : r) { map<int, std::unordered_map<int, mpq_class>> by; for (auto& x : p->t) { int j = monoexp(x.first, inv); by[e - j][monomul(x.first, monopow1(inv, -j))] += x.second; }
      PP acc = pconst(0); for (auto& gg : by) acc = padd(acc, pmul(collect(gg.second), pw[gg.first])); p = acc; }
  }
  map<int, int> mn; bool first = true;
  for (auto& p : r) for (auto& x : p->t) {
    map<int, int> cur; for (auto& f : monos[x.first]) if (atompos(f.first)) cur[f.first] = f.second;
    if (first) { mn = cur; first = false; continue; }
    std::set<int> ks; for (auto& k : mn) ks.insert(k.first); for (auto& k : cur) ks.insert(k.first);
    map<int, int> n2; for (int k : ks) { int v = std::min(mn.count(k) ? mn[k] : 0, cur.count(k) ? cur[k] : 0); if (v) n2[k] = v; } mn = n2;
  }
  Mono m; for (auto& k : mn) m.push_back({k.first, -k.second});
  if (!m.empty()) { int mi = mono(m); for (auto& p : r) p = pmonomul(p, mi); }
  mpq_class sc = 0; for (auto& p : r) if (!p->zero()) { sc = abs(p->t[0].second); break; }
  for (auto& p : r) { if (sc != 0) p = pscale(p, 1 / sc); p = intern(p); }
  return r;
}
static bool rowtriv(const PRow& r) { for (size_t i = 0; i + 1 < r.size(); i++) if (!pzero(r[i])) return false; return true; }
static double rownum(const PRow& r, vector<double>& av, vector<double>& v) { v.clear(); double n = 0; for (size_t i = 0; i < r.size(); i++) { v.push_back(evalpoly(*r[i], av)); if (i + 1 < r.size()) n += v[i] * v[i]; } return sqrt(n); }
static string lin(const vector<double>& v, double nrm) { string s = "(+ 0.0"; for (size_t j = 0; j + 1 < v.size(); j++) s += " (* " + qstr(mpq_class(v[j] / nrm)) + " x" + std::to_string(j) + ")"; return s + ")"; }
static void hs_dir(const string& what, int n, const vector<PRow>& have, const PRow& need, const string& dir, int idx) {
  // is { x | have } contained in need, for every input ? look for inputs and x with have(x) and not need(x)
  auto solve_at = [&](vector<double>& av, vector<double>& x, double margin) -> int {
    std::ostringstream o; o << "(reset)\n(set-option :timeout 5000)\n"; for (int j = 0; j < n; j++) o << "(declare-const x" << j << " Real)\n(assert (<= (- 10000.0) x" << j << " 10000.0))\n";
    vector<double> v; for (auto& r : have) { double nn = rownum(r, av, v); if (nn < 1e-12) { if (v.back() < 0) return 0; continue; } o << "(assert (<= " << lin(v, nn) << " " << qstr(mpq_class(v.back() / nn)) << "))\n"; }
    double nn = rownum(need, av, v); if (nn < 1e-12) { if (v.back() >= -1e-9) return 0; nn = 1; }
    o << "(assert (>= " << lin(v, nn) << " (+ " << qstr(mpq_class(v.back() / nn)) << " " << qstr(mpq_class(margin)) << ")))\n(check-sat)\n";
    if (!Z.pid) Z.start(); double t0 = now(); st_queries++; Z.send(o.str()); string r; for (;;) { r = Z.line(10); if (r.rfind("(error", 0) == 0 || r == "timeout" || r == "eof") { Z.stop(); st_unknown++; return -1; } if (r == "sat" || r == "unsat" || r == "unknown") break; } st_time += now() - t0;
    if (r != "sat") { st_unsat++; return r == "unsat" ? 0 : -1; } st_sat++;
    Z.send("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 17)\n"); x.clear();
    for (int j = 0; j < n; j++) { Z.send("(get-value (x" + std::to_string(j) + "))\n"); string l = Z.line(5); int dp = 0; for (char c : l) dp += (c == '(') - (c == ')'); while (dp > 0) { string m = Z.line(5); if (m == "timeout" || m == "eof") return -1; l += m; for (char c : m) dp += (c == '(') - (c == ')'); }
      vector<string> tk; string cur; for (char c : l) { if (c == '(' || c == ')' || c == ' ' || c == '?') { if (!cur.empty()) tk.push_back(cur); cur.clear(); } else cur += c; }
      bool ng = false, dv = false; vector<double> ns; for (size_t i = 1; i < tk.size(); i++) { if (tk[i] == "-") ng = !ng; else if (tk[i] == "/") dv = true; else ns.push_back(atof(tk[i].c_str())); } if (ns.empty()) return -1; double q = ns[0]; if (dv && ns.size() > 1) q /= ns[1]; x.push_back(ng ? -q : q); }
    return 1; };
  for (int t = 0; t < 4; t++) {
    vector<double> av; if (!sample({}, av, 400)) { if (feasible({}, &av) != 1) break; }
    vector<double> x, x2; if (solve_at(av, x, 1e-4) == 1) { for (double mg : {1e-2, 1.0}) { if (solve_at(av, x2, mg) != 1) break; x = x2; }
      map<string, double> ex; for (int j = 0; j < n; j++) ex["__x" + std::to_string(j)] = x[j]; ex["__dir"] = dir == "missing" ? 0 : 1; ex["__idx"] = idx; ex["__hs"] = 1;
      violation(what + (dir == "missing" ? ": a required constraint is not enforced (row " : ": a point allowed by the specification is excluded (row ") + std::to_string(idx) + ")", &av, &ex); }
  }
  // full query
  vector<int> xa; for (int j = 0; j < n; j++) { int at = atoms.size(); atoms.push_back({VAR, "x", -10000, 10000, nullptr}); xa.push_back(at); }
  auto con = [&](const PRow& r) { PP d = pscale(r[n], -1); for (int j = 0; j < n; j++) { vector<pair<int, mpq_class>> t{{monopow1(xa[j], 1), mpq_class(1)}}; d = padd(d, pmul(r[j], mk(std::move(t)))); } return d; };
  vector<Con> ex; for (auto& r : have) ex.push_back({con(r), LE}); ex.push_back({padd(pconst(mpq_class(1, 100000)), con(need), -1), LT});
  // counterexample search: fix just enough inputs (greedily) to make everything linear in the remaining inputs and x, let the solver choose those
  { vector<Con> all = pc; for (auto& r : have) all.push_back({con(r), LE}); size_t ni = all.size(); all.push_back({pscale(con(need), -1), LT});
    for (auto& c : all) c.d = clear(c.d);
    std::set<int> isx(xa.begin(), xa.end()), fix, seen; std::function<void(const Poly&)> deep = [&](const Poly& p) { for (auto& x : p.t) for (auto& f : monos[x.first]) { if (atoms[f.first].arg) { if (seen.insert(f.first).second) deep(*atoms[f.first].arg); } else fix.insert(f.first); } };
    for (auto& c : all) for (auto& x : c.d->t) for (auto& f : monos[x.first]) if (atoms[f.first].arg && seen.insert(f.first).second) deep(*atoms[f.first].arg);
    std::set<int> mons; for (auto& c : all) for (auto& x : c.d->t) mons.insert(x.first);
    std::set<int> fix0 = fix; double tend = now() + (tierS == "thorough" ? 12 : 4);
    for (int t = 0; t < 32 && now() < tend; t++) {
      // block chosen by this attempt: even: inputs multiplying x are fixed, odd: x is fixed
      fix = fix0; bool ok = true, fx = t & 1; if (fx) for (int x : xa) fix.insert(x);
      for (;;) { map<int, int> cnt; bool bad = false; for (int m : mons) { int deg = 0; for (auto& f : monos[m]) if (!atoms[f.first].arg && !fix.count(f.first)) deg += f.second; if (deg > 1) { bad = true; for (auto& f : monos[m]) if (!atoms[f.first].arg && !fix.count(f.first) && !isx.count(f.first)) cnt[f.first]++; } }
        if (!bad) break; int best = -1; for (auto& k : cnt) if (best < 0 || k.second > cnt[best]) best = k.first; if (best < 0) { ok = false; break; } fix.insert(best); }
      if (!ok) continue;
      // the fixed values: uniform, shrunk towards 0 by a factor that varies between attempts
      static const double SHR[4] = {1, 0.25, 0.05, 0}; double shr = SHR[(t / 2) % 4]; vector<double> av(atoms.size(), 0);
      for (size_t i = 0; i < atoms.size(); i++) if (atoms[i].kind == VAR) { double lo = atoms[i].lo, hi = atoms[i].hi; if (isx.count(i)) { lo = -4; hi = 4; } double v = lo == hi ? lo : lo + (hi - lo) * (double)(1 + rng() % 63) / 64; if (lo <= 0 && hi >= 0) v *= shr; av[i] = v; }
      completeatoms(av);
      std::set<int> fr; bool fine = true; auto lincon = [&](const PP& p, double& k, map<int, double>& l) { k = 0; for (auto& x : p->t) { double c = x.second.get_d(); int v = -1; for (auto& f : monos[x.first]) { if (!atoms[f.first].arg && !fix.count(f.first)) { v = f.first; continue; } c *= pow(av[f.first], f.second); } if (std::isnan(c) || std::isinf(c)) fine = false; if (v < 0) k += c; else { l[v] += c; fr.insert(v); } } };
      vector<pair<double, map<int, double>>> L; for (auto& c : all) { double k; map<int, double> l; lincon(c.d, k, l); L.push_back({k, l}); } if (!fine) continue;
      vector<double> nv; double nneed = rownum(need, av, nv); bool nfree = false; for (auto& p : need) (void)p;
      for (int j = 0; j < n; j++) for (auto& x : need[j]->t) for (auto& f : monos[x.first]) if (!atoms[f.first].arg && !fix.count(f.first)) nfree = true;
      if (!(nneed > 1e-9)) nfree = true;
      map<int, double> got; bool have1 = false;
      for (double mg : {1e-4, 1e-2, 1.0}) {
        string b; bool dead = false;
        for (size_t i = 0; i < all.size() && !dead; i++) { auto& l = L[i].second; double nn = 0; for (auto& q : l) nn += q.second * q.second; nn = sqrt(nn); bool neg = i >= pc.size();
          if (nn == 0) { double k = L[i].first; Rel r = all[i].r; if (i == ni ? k >= 0 : r == EQ ? fabs(k) > 1e-12 : r == NE ? k == 0 : k > (neg ? 0 : -1e-9)) dead = true; continue; }
          if (i == ni && !nfree) nn = nneed;
          string e = "(+ " + qstr(mpq_class(L[i].first / nn)); for (auto& q : l) if (q.second != 0) e += " (* " + qstr(mpq_class(q.second / nn)) + " " + aname(q.first) + ")"; e += ")";
          if (!neg) { Rel r = all[i].r; b += r == EQ ? "(assert (= " + e + " 0.0))\n" : r == NE ? "(assert (not (= " + e + " 0.0)))\n" : "(assert (<= " + e + " (- 0.000001)))\n"; }
          else b += "(assert (<= " + e + " " + (i == ni ? qstr(mpq_class(-mg)) : string("0.0")) + "))\n"; }
        if (dead) break;
        if (smt(b, fr, 3000) != 1) break;
        map<int, double> m; if (getvals(fr, m) != "") break; got = m; have1 = true;
      }
      if (!have1) continue;
      vector<double> bv = av; for (auto& q : got) bv[q.first] = q.second; completeatoms(bv); bool good = true; for (auto& c : pc) if (!holds(c, bv, 1e-9)) good = false; if (!good) continue;
      map<string, double> ex; for (int j = 0; j < n; j++) ex["__x" + std::to_string(j)] = bv[xa[j]]; ex["__dir"] = dir == "missing" ? 0 : 1; ex["__idx"] = idx; ex["__hs"] = 1;
      violation(what + (dir == "missing" ? ": a required constraint is not enforced (row " : ": a point allowed by the specification is excluded (row ") + std::to_string(idx) + ")", &bv, &ex);
    } }
  int r; { std::set<int> as; string b = pcbody(as); for (auto& c : ex) { atomsin(*clear(c.d), as); b += "(assert " + smtcon(c.d, c.r) + ")\n"; } r = smt(b, as, qtimeout_ms); }
  if (r == 0) return;
  end_path("inconclusive", "solver gave no verdict for: " + what + " (" + dir + " row " + std::to_string(idx) + ")");
}
// equal up to the rounding of decimal constants: every coefficient agrees to 1e-9 of the largest one
static bool nearrow(const PRow& a, const PRow& b) {
  if (a.size() != b.size()) return false; double M = 0;
  for (auto* r : {&a, &b}) for (auto& p : *r) for (auto& x : p->t) M = std::max(M, fabs(x.second.get_d()));
  for (size_t i = 0; i < a.size(); i++) { PP d = padd(a[i], b[i], -1); for (auto& x : d->t) if (fabs(x.second.get_d()) > 1e-9 * M) return false; }
  return true;
}
void check_halfspaces(const string& what, int n, const Rows& got, const Rows& want) {
  vector<PRow> G, W; PRow p; vector<PRow> GR, WR;
  for (auto& r : got) { st_oblig++; if ((int)r.size() != n + 1) violation(what + ": wrong row size", nullptr); if (!boxed(r[n]) && r[n] == INFINITY) continue; if (!prow(r, p, what)) violation(what + ": non-finite row", nullptr); G.push_back(strip(p)); GR.push_back(p); }
  for (auto& r : want) { st_oblig++; if (!boxed(r[n]) && r[n] == INFINITY) continue; if (!prow(r, p, what)) end_path("inconclusive", what + ": non-finite specification row"); W.push_back(strip(p)); WR.push_back(p); }
  auto key = [](const PRow& r) { vector<const Poly*> k; for (auto& q : r) k.push_back(q.get()); return k; };
  map<vector<const Poly*>, int> gs, ws; for (size_t i = 0; i < G.size(); i++) gs[key(G[i])] = i; for (size_t i = 0; i < W.size(); i++) ws[key(W[i])] = i;
  for (size_t i = 0; i < W.size(); i++) {
    auto it = gs.find(key(W[i])); if (it != gs.end()) {
      st_nf++;
      // proportional in the raw encoding too (pivot: first non-zero coefficient)
      const Row &a = got[it->second < (int)got.size() ? it->second : 0], &b = want[i]; (void)a; (void)b;
      if (got.size() == G.size() && want.size() == W.size()) { int pv = -1; for (int j = 0; j < n; j++) if (!pzero(WR[i][j])) { pv = j; break; }
        if (pv >= 0 && rawbudget > 0) { vector<pair<int, int>> e; for (int j = 0; j <= n; j++) if (j != pv) { double l = __sym_fmul(a[j], b[pv]), r = __sym_fmul(a[pv], b[j]); e.push_back({termof(l), termof(r)}); } rawcheck(what, e); } }
      continue; }
    if (rowtriv(W[i])) { // 0 <= b
      PP key; bool fl; int m = maskof(W[i][n], key, fl); if (fl) m = flipm(m); if (!(m & 1)) continue; }
    bool nr = false; for (auto& g : G) if (nearrow(g, W[i])) { nr = true; break; }
    if (nr) { st_near++; continue; }
    hs_dir(what, n, G, W[i], "missing", i);
  }
  for (size_t i = 0; i < G.size(); i++) {
    if (ws.count(key(G[i]))) { st_nf++; continue; }
    if (rowtriv(G[i])) { PP key; bool fl; int m = maskof(G[i][n], key, fl); if (fl) m = flipm(m); if (!(m & 1)) continue; }
    bool nr = false; for (auto& g : W) if (nearrow(g, G[i])) { nr = true; break; }
    if (nr) { st_near++; continue; }
    hs_dir(what, n, W, G[i], "excluded", i);
  }
}
void check_equalities(const string& what, int n, const Rows& got, const Rows& want) {
  Rows g, w; auto dup = [](const Rows& a, Rows& b) { for (auto& r : a) { b.push_back(r); Row m; for (double d : r) m.push_back(__sym_fneg(d)); b.push_back(m); } }; dup(got, g); dup(want, w); check_halfspaces(what, n, g, w);
}
}  // namespace sym

// ------------------------------------------------------------------ explorer
static void crash(int s) {
  signal(s, SIG_DFL); 
  void* bt[60]; int n = backtrace(bt, 60); (void)n; (void)bt;
  violation(string("crash: signal ") + std::to_string(s), nullptr);
}
static void onterminate() {
  string m = "uncaught exception"; try { auto e = std::current_exception(); if (e) std::rethrow_exception(e); } catch (std::exception& e) { m += string(": ") + e.what(); } catch (...) {}
  violation(m, nullptr);
}
int main(int argc, char** argv) {
  // symmain OUTDIR tier seed jobs maxpaths pathtime totaltime
  string dir = argv[1]; tierS = argv[2]; int seed = atoi(argv[3]), jobs = atoi(argv[4]); long maxp = atol(argv[5]); double pt = atof(argv[6]), tt = atof(argv[7]);
  if (argc > 8) rawbudget = atoi(argv[8]);
  if (tierS == "thorough") qtimeout_ms = 60000;
  prctl(PR_SET_PDEATHSIG, SIGKILL); map<pid_t, double> started;
  double T0 = now(); std::deque<vector<int>> q; q.push_back({}); map<pid_t, int> run; long id = 0, done = 0; bool over = false;
  std::ofstream idx(dir + "/paths.txt");
  while ((!q.empty() && !over) || !run.empty()) {
    while (!q.empty() && (int)run.size() < jobs && !over) {
      if (id >= maxp || now() - T0 > tt) { over = true; break; }
      vector<int> p = q.back(); q.pop_back(); int me = id++;
      fflush(stdout); pid_t c = fork();
      if (!c) {
        setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL);
        idx.close(); prefix = p; outfile = dir + "/p" + std::to_string(me) + ".json"; rng.seed(seed * 1000003ull + me); pathstart = now(); pathdeadline = now() + pt; monos.clear(); monoid.clear(); mono(Mono());
        for (int s : {SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGABRT}) signal(s, crash); std::set_terminate(onterminate);
        try { harness_main(); } catch (std::exception& e) { violation(string("uncaught exception: ") + e.what(), nullptr); }
        end_path("ok", "");
      }
      run[c] = me; started[c] = now();
    }
    if (run.empty()) break;
    int st; pid_t c = waitpid(-1, &st, WNOHANG); 
    if (c == 0) {
      usleep(2000); double t = now();
      for (auto& r : run) if (t - started[r.first] > pt * 1.25 + 5 || t - T0 > tt + 10) { kill(-r.first, SIGKILL); kill(r.first, SIGKILL); }
      continue;
    }
    if (c < 0) break; 
    if (!run.count(c)) continue; int me = run[c]; run.erase(c); done++;
    string f = dir + "/p" + std::to_string(me) + ".json"; std::ifstream i(f); std::stringstream ss; ss << i.rdbuf(); string s = ss.str();
    if (s.empty()) { std::ofstream o(f); o << "{\"status\":\"inconclusive\",\"msg\":\"path process ended without a verdict (time limit or memory), status " << st << "\",\"new\":[]}\n"; continue; }
    static int nviol = 0; if (s.compare(0, 23, "{\"status\":\"violation\",") == 0) { if (++nviol >= 40) over = true; tt = std::min(tt, now() - T0 + (tierS == "thorough" ? 1500 : 200)); }   // enough counterexamples to replay
    size_t k = s.find("\"new\":["); k += 7; vector<int> cur; bool in = false; string num;
    for (; k < s.size(); k++) { char ch = s[k]; if (ch == '[') { in = true; cur.clear(); num.clear(); } else if (ch == ']') { if (!in) break; if (!num.empty()) cur.push_back(atoi(num.c_str())); num.clear(); q.push_back(cur); in = false; } else if (ch == ',') { if (in) { if (!num.empty()) cur.push_back(atoi(num.c_str())); num.clear(); } } else num += ch; }
  }
  idx << "paths " << id << " done " << done << " over " << (over || !q.empty() ? 1 : 0) << " left " << q.size() << " wall " << now() - T0 << "\n";
  return 0;
}

// static storage of the code under test (gathered in one section by the pass)
extern "C" char __start_symstate[] __attribute__((weak)); extern "C" char __stop_symstate[] __attribute__((weak));
namespace sym {
std::string save_statics() { return __start_symstate ? std::string(__start_symstate, __stop_symstate) : std::string(); }
void restore_statics(const std::string& s) { if (!s.empty()) memcpy(__start_symstate, s.data(), s.size()); }
}
