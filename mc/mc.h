// Stateless exhaustive explorer: enumerates every resolution of the choice points of a
// scenario that drives the real oxsx code, in lock step with a reference model.
//
// An execution is a function of its choice sequence.  The explorer performs a depth first
// search over the choice tree by re-execution, so that every sequence within the scenario's
// bounds is run exactly once (over all workers).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <exception>

namespace mc {

struct Fail { std::string sig, msg; };   // property broken
struct Pruned {};                        // execution leaves the explored space

// resolve a choice point with n alternatives
int choose(int n, const char *label = "");
inline bool flip(const char *label = "") { return choose(2, label) == 1; }
template <class T> const T &pick(const std::vector<T> &v, const char *label = "") { return v[choose((int)v.size(), label)]; }

// note one step (operation, transition) of the execution
void op(const std::string &what);
// note the canonical state reached
void state(uint64_t hash);
// the property: sig names the kind of breakage (stable, used to recognise known findings)
void fail(const std::string &sig, const std::string &msg);
inline void check(bool ok, const std::string &sig, const std::string &msg) { if (!ok) fail(sig, msg); }
void prune();
// false while re-executing choices whose outcome the previous execution already checked
// (executions are deterministic, so checking those prefixes again would decide nothing new)
bool fresh();
bool thorough();
// choose the bound by tier
inline int tier(int quick, int thoroughValue) { return thorough() ? thoroughValue : quick; }
uint64_t seed();
// a scratch directory private to this worker process, removed at its end
const std::string &scratch();
// run f in a forked child with a time limit: 0 = returned normally, 1 = threw, 2 = crashed (signal or sanitizer), 3 = hung
// the child may hand back a small string
int isolated(const std::function<std::string()> &f, std::string *out = nullptr, double limit_s = 10);

struct Reg { Reg(const char *name, void (*fn)(), int split); };
#define MC_SCENARIO_SPLIT(NAME, SPLIT) static void NAME(); static mc::Reg mcreg_##NAME(#NAME, &NAME, SPLIT); static void NAME()
#define MC_SCENARIO(NAME) MC_SCENARIO_SPLIT(NAME, 2)

// ---- helpers for oracles
inline bool close(double a, double b, double rel = 1e-9, double abs = 1e-11) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  double d = std::fabs(a - b);
  return d <= abs || d <= rel * std::max(std::fabs(a), std::fabs(b));
}
std::string str(double v);
inline std::string str(const std::string &s) { return s; }
template <class T> std::string vstr(const T &c) {
  std::string s = "[";
  for (auto it = c.begin(); it != c.end(); ++it) { if (it != c.begin()) s += ","; s += str(*it); }
  return s + "]";
}
template <class M> std::string mstr(const M &m) {
  std::string s = "{";
  for (auto it = m.begin(); it != m.end(); ++it) { if (it != m.begin()) s += ","; s += str(it->first) + ":" + str(it->second); }
  return s + "}";
}
inline bool vclose(const std::vector<double> &a, const std::vector<double> &b, double rel = 1e-9, double abs = 1e-11) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (!close(a[i], b[i], rel, abs)) return false;
  return true;
}
template <class M> bool mclose(const M &a, const M &b, double rel = 1e-9, double abs = 1e-11) {
  if (a.size() != b.size()) return false;
  auto j = b.begin();
  for (auto i = a.begin(); i != a.end(); ++i, ++j)
    if (i->first != j->first || !close(i->second, j->second, rel, abs)) return false;
  return true;
}

// does f throw? (anything but the explorer's own control flow)
template <class F> bool throws(F f) {
  try { f(); } catch (const Fail &) { throw; } catch (const Pruned &) { throw; } catch (...) { return true; }
  return false;
}
template <class E, class F> bool throwsA(F f) {
  try { f(); } catch (const Fail &) { throw; } catch (const Pruned &) { throw; } catch (const E &) { return true; } catch (...) { return false; }
  return false;
}

struct Hash {
  uint64_t h = 1469598103934665603ull;
  Hash &b(uint64_t v) { for (int i = 0; i < 8; i++) { h ^= (v >> (8 * i)) & 0xff; h *= 1099511628211ull; } return *this; }
  Hash &d(double v);
  Hash &s(const std::string &v) { for (unsigned char c : v) { h ^= c; h *= 1099511628211ull; } return b(v.size()); }
  template <class C> Hash &vd(const C &c) { b(c.size()); for (auto &x : c) d(x); return *this; }
  template <class C> Hash &vs(const C &c) { b(c.size()); for (auto &x : c) s(x); return *this; }
  template <class M> Hash &md(const M &m) { b(m.size()); for (auto &x : m) { s(x.first); d(x.second); } return *this; }
};
} // namespace mc

#define MC_STR(X) ([&]() { std::ostringstream mc_os_; mc_os_.precision(17); mc_os_ << X; return mc_os_.str(); }())
#define MC_OP(X) mc::op(MC_STR(X))
#define MC_CHECK(COND, SIG, X) do { if (!(COND)) mc::fail(SIG, MC_STR(X)); } while (0)
