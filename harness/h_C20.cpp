// C20 grid search: every point of the grid, and its extremum
#include "mc.h"
#include <GridSearch.h>
#include <FitResult.h>
#include <TestStatistic.h>
#include <BinnedNLLH.h>
#include <Exceptions.h>
#include <iostream>
#include <limits>
using namespace mc;
typedef std::vector<double> VD;
typedef std::vector<std::string> VN;
static struct Quiet { Quiet() { std::cout.setstate(std::ios::failbit); } } quiet;
static const double NaN = std::numeric_limits<double>::quiet_NaN(), INF = std::numeric_limits<double>::infinity();

static const VN ALL = {"a", "b", "c", "d", "e", "f", "g", "h"};
struct Toy : TestStatistic {
  ParameterDict p; int fn; std::vector<VD> seen; bool registered = false;
  Toy(size_t n, int f) : fn(f) { for (size_t i = 0; i < n; i++) p[ALL[i]] = 77; }
  VD at() const { VD v; for (auto &x : p) v.push_back(x.second); return v; }
  double f(const VD &v) const {
    double s = 0, w = 1; for (double x : v) { s += w * x; w *= -1.7; }
    switch (fn) {
      case 0: return 3 + s * s + 0.1 * s;                  // positive
      case 1: return s;                                    // either sign, extremes at the corners
      case 2: return -2 - s * s + 0.1 * s;                 // negative
      case 3: return s < 0.1 && s > -0.1 ? 0 : -std::fabs(s);  // zero at the middle
      case 4: return (long)std::floor(s * 7 + 50) % 2 ? NaN : s;  // not a number at some
      case 5: return s < 0 ? INF : s > 1 ? -INF : s;       // infinities
      case 6: return 0;
      case 7: return NaN;
      case 8: return s == f0 ? NaN : s * s - 1;            // not a number where it starts
    }
    return 0;
  }
  double f0 = 0;
  double Evaluate() { seen.push_back(at()); return f(at()); }
  void SetParameters(const ParameterDict &d) { for (auto &x : p) { if (!d.count(x.first)) throw ParameterError("missing " + x.first); x.second = d.at(x.first); } }
  ParameterDict GetParameters() const { return p; }
  size_t GetParameterCount() const { return p.size(); }
  std::set<std::string> GetParameterNames() const { std::set<std::string> s; for (auto &x : p) s.insert(x.first); return s; }
  void RegisterFitComponents() { registered = true; }
};
struct Ax { double lo, hi, st; int n; };
static const Ax AX[] = {{0, 1, 0.5, 3}, {0, 0.3, 0.1, 4}, {-1, 1, 0.75, 3}, {2, 2, 1, 1}, {0, 1, 5, 1}, {-1, -0.5, 0.25, 3}, {-0.7, 0.7, 0.1, 15}, {1, 2, 1. / 3, 4}, {1e6, 1e6 + 2, 1, 3}, {0, 1, 1 / 2.9999999, 3}, {-1, 2, 0.2999999, 11}};
static std::vector<VD> grid(const std::vector<Ax> &a) { std::vector<VD> g = {VD()}; for (auto &x : a) { std::vector<VD> h; for (auto &v : g) for (int i = 0; i < x.n; i++) { VD w = v; w.push_back(x.lo + i * x.st); h.push_back(w); } g = h; } return g; }
static int where(const std::vector<VD> &g, const VD &v) { for (size_t i = 0; i < g.size(); i++) if (vclose(g[i], v, 1e-9, 1e-9)) return i; return -1; }
static void config(GridSearch &s, const std::vector<Ax> &a) { ParameterDict l, h, t; for (size_t i = 0; i < a.size(); i++) { l[ALL[i]] = a[i].lo; h[ALL[i]] = a[i].hi; t[ALL[i]] = a[i].st; } s.SetMinima(l); s.SetMaxima(h); s.SetStepSizes(t); MC_CHECK(s.GetMinima() == l && s.GetMaxima() == h && s.GetStepSizes() == t, "settings", ""); }
static void search(GridSearch &s, const std::vector<Ax> &a, int fn, bool max) {
  Toy t(a.size(), fn); std::vector<VD> g = grid(a); { VD v = g[0]; Toy u(a.size(), 1); t.f0 = u.f(v); } config(s, a); s.SetMaximising(max); MC_CHECK(s.GetMaximising() == max, "settings", "");
  FitResult r = s.Optimise(&t), r2 = s.GetFitResult(); std::set<int> got; MC_CHECK(t.registered, "components not registered", "");
  for (auto &v : t.seen) { int w = where(g, v); MC_CHECK(w >= 0, "evaluated off the grid", vstr(v)); got.insert(w); }
  MC_CHECK(got.size() == g.size(), "points of the grid not visited", got.size() << " of " << g.size());
  double best = 0; bool have = false; for (auto &v : t.seen) { double f = t.f(v); if (std::isnan(f)) continue; if (!have || (max ? f > best : f < best)) { best = f; have = true; } }
  if (have) {
    VD b; for (auto &x : r.GetBestFit()) b.push_back(x.second); std::set<std::string> nm; for (auto &x : r.GetBestFit()) nm.insert(x.first);
    MC_CHECK(nm == t.GetParameterNames() && where(g, b) >= 0, "best fit is not a point of the grid", vstr(b)); double fb = t.f(b);
    MC_CHECK(fb == best, "best fit is not the extremum", "f" << vstr(b) << " = " << fb << " but the extremum is " << best); MC_CHECK(r.GetExtremeVal() == best, "value reported", "got " << r.GetExtremeVal() << " expected " << best);
  }
  MC_CHECK(r2.GetBestFit() == r.GetBestFit(), "result kept", ""); state(Hash().vd(t.seen.back()).d(best).b(g.size()).h);
}
MC_SCENARIO_SPLIT(grids, 3) {
  int n = choose(tier(4, 5), "parameters"), m = n <= 2 ? 11 : n == 3 ? tier(5, 7) : 4; std::vector<Ax> a; for (int i = 0; i < n; i++) a.push_back(AX[choose(m, "axis")]); int fn = choose(9, "statistic"); bool max = flip("maximise"); MC_OP(n << " parameters, statistic " << fn << (max ? " maximising" : "")); GridSearch s; search(s, a, fn, max);
}
// one search object used again and again
MC_SCENARIO_SPLIT(reuse, 3) { GridSearch s; int n = tier(3, 4); for (int k = 0; k < n; k++) { int d = choose(4, "parameters"), w = choose(2, "axes"), fn = choose(4, "statistic"); bool max = flip("maximise"); static const int pick_fn[] = {0, 2, 7, 8}; std::vector<Ax> a; for (int i = 0; i < d; i++) a.push_back(AX[(w * 2 + i) % 5]); MC_OP("search " << d << " " << w << " " << fn << max); search(s, a, pick_fn[fn], max); } }
// configurations that make no sense
MC_SCENARIO_SPLIT(refused, 2) {
  int n = 1 + choose(3, "parameters"), which = choose(n, "parameter"), how = choose(13, "fault"); std::vector<Ax> a; for (int i = 0; i < n; i++) a.push_back(AX[i]); std::string nm = ALL[which];
  auto run = [&]() -> std::string { GridSearch s; Toy t(n, 0); config(s, a); ParameterDict l = s.GetMinima(), h = s.GetMaxima(), st = s.GetStepSizes();
    switch (how) { case 0: l.erase(nm); break; case 1: h.erase(nm); break; case 2: st.erase(nm); break; case 3: l.erase(nm); h.erase(nm); st.erase(nm); break; case 4: st[nm] = 0; break; case 5: st[nm] = -0.5; break; case 6: l[nm] = h[nm] + 0.5; break; case 7: st[nm] = NaN; break; case 8: l[nm] = NaN; break; case 9: h[nm] = NaN; break; case 10: l["zz"] = 0; h["zz"] = 1; st["zz"] = 1; break; case 11: h["zz"] = 1; break; case 12: l.clear(); h.clear(); st.clear(); break; }
    s.SetMinima(l); s.SetMaxima(h); s.SetStepSizes(st); s.Optimise(&t); return ""; };
  std::string out; MC_OP("fault " << how << " on " << nm << " of " << n); int w = isolated(run, &out, 5); MC_CHECK(w == 1, w == 0 ? "inconsistent configuration accepted" : w == 3 ? "inconsistent configuration hangs" : "inconsistent configuration crashes", "fault " << how);
}
// a likelihood: the best point of the grid
MC_SCENARIO(likelihood) {
  AxisCollection ax; ax.AddAxis(BinAxis("x", 0, 2, 2)); auto mk = [&](const std::string &n, double p, double q) { BinnedED d(n, ax); d.SetObservables(VN{"x"}); d.SetBinContent(0, p); d.SetBinContent(1, q); return d; };
  BinnedNLLH l; l.AddPdf(mk("s", 0.25, 0.75)); l.AddPdf(mk("t", 0.5, 0.5)); double S = choose(4, "s") * 4, T = 4 + choose(3, "t") * 4; l.SetDataDist(mk("data", S / 4 + T / 2, 3 * S / 4 + T / 2));
  GridSearch g; ParameterDict lo, hi, st; lo["s"] = 0; lo["t"] = 4; hi["s"] = 12; hi["t"] = 12; st["s"] = 4; st["t"] = 4; g.SetMinima(lo); g.SetMaxima(hi); g.SetStepSizes(st); const FitResult &r = g.Optimise(&l); ParameterDict b = r.GetBestFit(); MC_CHECK(b["s"] == S && b["t"] == T, "best fit of a likelihood", mstr(b)); l.SetParameters(b); MC_CHECK(close(l.Evaluate(), r.GetExtremeVal()), "value of a likelihood", "");
}
// long axes and many parameters
MC_SCENARIO_SPLIT(many, 2) {
  static const std::vector<std::vector<Ax>> gs = {{{0, 1, 0.01, 101}}, {{-3, 3, 0.01, 601}}, {{0, 256, 1, 257}}, {{0, 1, 0.001, 1001}}, {{0, 40, 1, 41}, {0, 0.3, 0.1, 4}}, {{0, 0.3, 0.1, 4}, {-2, 2, 0.1, 41}}, {{0, 1, 0.5, 3}, {0, 0.3, 0.1, 4}, {-1, 1, 0.75, 3}, {2, 2, 1, 1}, {0, 0.4, 0.2, 3}}, {{0, 1, 1, 2}, {0, 0.1, 0.1, 2}, {-1, 0, 0.75, 2}, {1, 2, 1, 2}, {0, 1, 0.5, 3}, {4, 6, 2, 2}}, {{0, 1, 1, 2}, {0, 1, 1, 2}, {0, 1, 1, 2}, {0, 1, 1, 2}, {0, 1, 1, 2}, {0, 1, 1, 2}, {0, 1, 1, 2}, {0, 1, 1, 2}}};
  int w = choose((int)gs.size(), "grid"), fn = choose(9, "statistic"); bool max = flip("maximise"); MC_OP("grid " << w << " statistic " << fn << (max ? " maximised" : " minimised")); GridSearch s; search(s, gs[w], fn, max); if (flip("again")) search(s, gs[(w + 4) % gs.size()], fn == 1 ? 0 : 1, !max);
}
