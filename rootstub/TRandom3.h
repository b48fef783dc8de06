// Stand-in for ROOT's generator: every random number is supplied by the harness (a choice point of
// the exploration); without a supplier it is a fixed linear congruential sequence.
#pragma once
#include <functional>
struct RandHooks {
  static std::function<double()> &rndm() { static std::function<double()> f; return f; }
  static std::function<double(double, double)> &gaus() { static std::function<double(double, double)> f; return f; }
  static std::function<int(double)> &poisson() { static std::function<int(double)> f; return f; }
};
class TRandom3 {
  unsigned s_ = 4357, x_ = 4357;
public:
  double Rndm() { if (RandHooks::rndm()) return RandHooks::rndm()(); x_ = x_ * 1664525u + 1013904223u; return (x_ + 0.5) / 4294967296.0; }
  double Uniform(double a = 1) { return a * Rndm(); }
  double Uniform(double a, double b) { return a + (b - a) * Rndm(); }
  double Gaus(double m = 0, double s = 1) { if (RandHooks::gaus()) return RandHooks::gaus()(m, s); return m + s * (Rndm() + Rndm() + Rndm() - 1.5); }
  int Poisson(double r) { if (RandHooks::poisson()) return RandHooks::poisson()(r); return (int)r; }
  unsigned Integer(unsigned n) { return (unsigned)(n * Rndm()); }
  double PoissonD(double r) { return Poisson(r); }
  void RndmArray(int n, double *a) { for (int i = 0; i < n; i++) a[i] = Rndm(); }
  explicit TRandom3(unsigned s = 4357) : s_(s), x_(s) {}
  void SetSeed(unsigned s = 0) { s_ = x_ = s; }
  unsigned GetSeed() const { return s_; }
};
