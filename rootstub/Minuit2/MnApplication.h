// Stand-in for ROOT's Minuit2: it records what it is asked to do and lets the harness play the minimiser.
#pragma once
#include <functional>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>
namespace ROOT { namespace Minuit2 {
class FCNBase { public: virtual ~FCNBase() {} virtual double Up() const = 0; virtual double operator()(const std::vector<double> &) const = 0; };
class MnStrategy { unsigned s_; public: explicit MnStrategy(unsigned s = 1) : s_(s) {} unsigned Strategy() const { return s_; } };
class MnUserParameters {
public:
  std::vector<double> values, errors; std::map<unsigned, std::pair<double, double>> limits;
  MnUserParameters() {}
  MnUserParameters(const std::vector<double> &v, const std::vector<double> &e) : values(v), errors(e) {}
  std::vector<std::string> names; std::set<unsigned> constants;
  unsigned Index(const std::string &n) const { for (unsigned i = 0; i < names.size(); i++) if (names[i] == n) return i; return (unsigned)names.size(); }
  bool Add(const std::string &n, double v, double e) { names.push_back(n); values.push_back(v); errors.push_back(e); return true; }
  bool Add(const std::string &n, double v, double e, double lo, double hi) { Add(n, v, e); SetLimits((unsigned)values.size() - 1, lo, hi); return true; }
  bool Add(const std::string &n, double v) { Add(n, v, 0); Fix((unsigned)values.size() - 1); return true; }
  void Fix(unsigned i) { constants.insert(i); }
  void Fix(const std::string &n) { Fix(Index(n)); }
  void Release(unsigned i) { constants.erase(i); }
  void SetValue(unsigned i, double v) { values.at(i) = v; }
  void SetError(unsigned i, double v) { errors.at(i) = v; }
  std::vector<double> Params() const { return values; }
  double Value(unsigned i) const { return values.at(i); }
  double Error(unsigned i) const { return errors.at(i); }
  void SetLimits(const std::string &n, double lo, double hi) { SetLimits(Index(n), lo, hi); }
  void SetLimits(unsigned i, double lo, double hi) { limits[i] = std::make_pair(lo, hi); }
  void SetLowerLimit(unsigned i, double lo) { limits[i].first = lo; }
  void SetUpperLimit(unsigned i, double hi) { limits[i].second = hi; }
};
class MnUserCovariance { std::vector<double> d_; unsigned n_; public: MnUserCovariance(const std::vector<double> &d = std::vector<double>(), unsigned n = 0) : d_(d), n_(n) {} const std::vector<double> &Data() const { return d_; } unsigned Nrow() const { return n_; } unsigned int size() const { return d_.size(); } double operator()(unsigned r, unsigned c) const { return r > c ? d_.at(c + r * (r + 1) / 2) : d_.at(r + c * (c + 1) / 2); } };
class FunctionMinimum { public: bool valid; double fval; MnUserCovariance cov; FunctionMinimum(bool v = false, double f = 0, const MnUserCovariance &c = MnUserCovariance()) : valid(v), fval(f), cov(c) {} bool IsValid() const { return valid; } double Fval() const { return fval; } MnUserCovariance UserCovariance() const { return cov; } bool HasCovariance() const { return cov.size() > 0; } };
struct MinuitRequest { const FCNBase *fcn; std::string method; std::vector<double> values, errors; std::map<unsigned, std::pair<double, double>> limits; std::set<unsigned> fixed; unsigned strategy, calls; double tolerance; };
struct MinuitReply { std::vector<double> params; bool valid; double fval; std::vector<double> covariance; unsigned rows; };
struct MinuitHooks { static std::function<MinuitReply(const MinuitRequest &)> &minimise() { static std::function<MinuitReply(const MinuitRequest &)> f; return f; } };
class MnApplication {
  const FCNBase &fcn_; MnUserParameters p_; unsigned strategy_; std::string method_; std::set<unsigned> fixed_;
public:
  MnApplication(const FCNBase &f, const MnUserParameters &p, const MnStrategy &s, const std::string &m) : fcn_(f), p_(p), strategy_(s.Strategy()), method_(m), fixed_(p.constants) {}
  virtual ~MnApplication() {}
  void Fix(unsigned i) { fixed_.insert(i); }
  void Release(unsigned i) { fixed_.erase(i); }
  std::vector<double> Params() const { return p_.values; }
  double Value(unsigned i) const { return p_.values.at(i); }
  FunctionMinimum operator()(unsigned calls = 0, double tolerance = 0.1) { MinuitRequest q = {&fcn_, method_, p_.values, p_.errors, p_.limits, fixed_, strategy_, calls, tolerance}; MinuitReply r = MinuitHooks::minimise()(q); p_.values = r.params; return FunctionMinimum(r.valid, r.fval, MnUserCovariance(r.covariance, r.rows)); }
};
class MnMigrad : public MnApplication { public: MnMigrad(const FCNBase &f, const MnUserParameters &p, const MnStrategy &s = MnStrategy(1)) : MnApplication(f, p, s, "Migrad") {} };
class MnMinimize : public MnApplication { public: MnMinimize(const FCNBase &f, const MnUserParameters &p, const MnStrategy &s = MnStrategy(1)) : MnApplication(f, p, s, "Minimize") {} };
class MnSimplex : public MnApplication { public: MnSimplex(const FCNBase &f, const MnUserParameters &p, const MnStrategy &s = MnStrategy(1)) : MnApplication(f, p, s, "Simplex") {} };
} }
