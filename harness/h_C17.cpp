// C17 constraints: each is counted once, with its formula and latest setting
#include "mc.h"
#include <ConstraintManager.h>
#include <TestStatistic.h>
#include <iostream>
#include <sstream>
#include <Histogram.h>
#include <cmath>
using namespace mc;
typedef std::vector<double> VD;
typedef std::vector<std::string> VN;
static const VN P = {"a", "b", "c"};
static double sq(double z) { return z * z / 2; }
static double fnDiff(const ParameterDict &p) { return p.at("a") - 2 * p.at("b"); }
static double fnProd(const ParameterDict &p) { return p.at("a") * p.at("b"); }
static Histogram lattice(int k) { AxisCollection c; c.AddAxis(BinAxis(k == 2 ? "c" : "a", -1, 5, 3)); if (k == 1) c.AddAxis(BinAxis("b", -2, 6, 2)); Histogram h(c); for (size_t i = 0; i < h.GetNBins(); i++) h.SetBinContent(i, (i % 3 == 1 ? -1. : 1.) * (1 + i * i + k)); return h; }

struct Con { VN p; std::function<double(const ParameterDict &)> f; };
struct Model {
  std::map<std::string, Con> in;                 // by what they constrain
  std::map<std::string, std::string> taken;      // parameter -> individually constrained or in this pair
  bool value(const ParameterDict &d, double &v) const { v = 0; for (auto &c : in) { for (auto &n : c.second.p) if (!d.count(n)) return false; v += c.second.f(d); } return true; }
};
static std::function<double(const ParameterDict &)> quad(const std::string &p, double m, double hi, double lo) { return [=](const ParameterDict &d) { double x = d.at(p); return sq((x - m) / (x >= m ? hi : lo)); }; }

template <class CM> static void setOne(CM &man, Model &m, int kind, int var) {
  double mu = var == 0 ? 1 : -0.5, s = var == 0 ? 2 : 0.5;
  auto refused = [&](bool ok, std::function<void()> f, const std::string &what) { MC_OP(what); bool t = throws(f); if (fresh()) MC_CHECK(t == !ok, ok ? "set: refused" : "set: accepted", what); };
  if (kind < 6) { // individual, symmetric or asymmetric
    std::string p = P[kind % 3]; bool asym = kind >= 3, ok = !m.taken.count(p) || m.taken[p] == p; double lo = asym ? s / 2 : s;
    refused(ok, [&] { asym ? man.SetConstraint(p, mu, s, lo) : man.SetConstraint(p, mu, s); }, (asym ? "asymmetric " : "symmetric ") + p + (var ? " 2nd" : ""));
    if (ok) { m.in["1" + p] = {{p}, quad(p, mu, s, lo)}; m.taken[p] = p; }
  } else if (kind < 9) { // correlated pairs ab, bc, ba
    std::string p = kind == 7 ? "b" : kind == 8 ? "b" : "a", q = kind == 6 ? "b" : kind == 7 ? "c" : "a", key = p + "," + q; double r = var ? -0.5 : 0.25;
    bool ok = (!m.taken.count(p) && !m.taken.count(q)) || m.in.count("2" + key);
    refused(ok, [&] { man.SetConstraint(p, mu, s, q, mu + 1, 2 * s, r); }, "pair " + key + (var ? " 2nd" : ""));
    if (ok) { m.in["2" + key] = {{p, q}, [=](const ParameterDict &d) { double x = (d.at(p) - mu) / s, y = (d.at(q) - mu - 1) / (2 * s); return (x * x - 2 * r * x * y + y * y) / (2 * (1 - r * r)); }}; m.taken[p] = m.taken[q] = key; }
  } else if (kind < 11) { // ratios a/b and b/a
    std::string p = kind == 9 ? "a" : "b", q = kind == 9 ? "b" : "a";
    refused(true, [&] { man.SetConstraint(p, q, mu, s); }, "ratio " + p + "/" + q + (var ? " 2nd" : ""));
    m.in["3" + p + q] = {{p, q}, [=](const ParameterDict &d) { double y = d.at(q); if (std::fabs(y) < 1e-8) y = 1e-8; return sq((d.at(p) / y - mu) / s); }};
  } else if (kind < 13) { // fractional differences
    std::string p = kind == 11 ? "a" : "b", q = "c";
    refused(true, [&] { man.SetFracConstraint(p, q, mu, s); }, "fraction " + p + q + (var ? " 2nd" : ""));
    m.in["4" + p + q] = {{p, q}, [=](const ParameterDict &d) { return sq(((d.at(p) - d.at(q)) / (d.at(p) + d.at(q)) - mu) / s); }};
  } else if (kind < 15) { // functions of parameters
    ParameterDict d; d["a"] = 0; d["b"] = 0; if (kind == 14) d["c"] = 0; auto f = var ? fnProd : fnDiff;
    refused(true, [&] { man.SetConstraint(d, ShapeFunc(f), mu, s); }, "function " + str((double)kind) + (var ? " 2nd" : ""));
    m.in["5" + str((double)kind)] = {{"a", "b"}, [=](const ParameterDict &d) { return sq((f(d) - mu) / s); }};
  } else { // lattice of values, relabelled
    std::string label = kind == 15 ? "L" : "a"; int k = var ? 1 : kind == 16 ? 2 : 0; Histogram h = lattice(k);
    refused(true, [&] { man.SetConstraint(label, h); }, "lattice " + label + (var ? " 2nd" : ""));
    VN ps = k == 1 ? VN{"a", "b"} : k == 2 ? VN{"c"} : VN{"a"};
    m.in["6" + label] = {ps, [=](const ParameterDict &d) {
      auto c = [&](int i, int j) { int n = k == 1 ? i * 2 + j : i; return (n % 3 == 1 ? -1. : 1.) * (1. + n * n + k); };
      double x = d.at(ps[0]); int i = x < 2 ? 0 : 1; double fx = (x - 2 * i) / 2;
      if (k != 1) return c(i, 0) * (1 - fx) + c(i + 1, 0) * fx;
      double fy = (d.at("b") - 0) / 4;
      return (c(i, 0) * (1 - fx) + c(i + 1, 0) * fx) * (1 - fy) + (c(i, 1) * (1 - fx) + c(i + 1, 1) * fx) * fy; }};
  }
}
static const std::vector<VD> &points() { static const std::vector<VD> p = {{1, 2, 3}, {0.5, 0, 2.25}, {2, 1, 1}, {3.5, 4, 0.5}, {1, 1, 0.125}}; return p; }
static ParameterDict at(const VD &v) { ParameterDict d; for (int i = 0; i < 3; i++) d[P[i]] = v[i]; d["z"] = 100; return d; }
static void evaluate(const ConstraintManager &man, const Model &m) {
  if (!fresh()) return;
  uint64_t hh = 0;
  for (auto &p : points()) { ParameterDict d = at(p); double want; m.value(d, want); double got = man.Evaluate(d); MC_CHECK(close(got, want, 1e-10, 1e-10), "evaluate: value", "at " << vstr(p) << " got " << str(got) << " expected " << str(want)); hh ^= Hash().d(want).h; }
  for (auto &n : P) { ParameterDict d = at(points()[2]); d.erase(n); double want; bool ok = m.value(d, want); double got = 0; bool t = throws([&] { got = man.Evaluate(d); });
    MC_CHECK(t == !ok, "evaluate: missing parameter", n); if (ok) MC_CHECK(close(got, want, 1e-10, 1e-10), "evaluate: value with fewer parameters", ""); }
  state(hh);
}

MC_SCENARIO_SPLIT(histories, 3) {
  ConstraintManager man; Model m; man.SetDebugMode(false); int n = tier(4, 5);
  evaluate(man, m);
  for (int k = 0; k < n; k++) { int kind = choose(17, "kind"); setOne(man, m, kind, kind < 3 || kind == 6 || kind == 9 || kind >= 13 ? choose(2, "setting") : 0); evaluate(man, m);
    if (k == 1) { ConstraintManager c2(man); Model m2 = m; setOne(c2, m2, 9, 1); evaluate(c2, m2); evaluate(man, m); } }
}

// the same through a test statistic, which takes the lower width first
struct Stat : TestStatistic { double Evaluate() override { return 0; } void RegisterFitComponents() override {} };
struct Through { Stat &s; template <class... T> void SetConstraint(T &&...x) { s.SetConstraint(x...); } void SetConstraint(std::string &p, double &m, double &hi, double &lo) { s.SetConstraint(p, m, lo, hi); } template <class... T> void SetFracConstraint(T &&...x) { s.GetConstraintManager().SetFracConstraint(x...); } };
MC_SCENARIO_SPLIT(through_a_statistic, 2) {
  struct Quiet { std::streambuf *o; std::stringbuf b; Quiet() { o = std::cout.rdbuf(&b); } ~Quiet() { std::cout.rdbuf(o); } } quiet;
  Stat s; Through t{s}; Model m; int n = tier(2, 3); int how = choose(3, "manager set, or printing"); if (how == 2) s.SetDebugMode(true); evaluate(s.GetConstraintManager(), m); bool copied = how == 1;
  for (int k = 0; k < n; k++) { int kind = choose(17, "kind"); setOne(t, m, kind, kind < 3 || kind == 6 || kind == 9 || kind >= 13 ? choose(2, "setting") : 0); evaluate(s.GetConstraintManager(), m);
    if (k == 0 && copied) { MC_OP("manager set"); Stat o; o.SetConstraint("c", 9, 1); o.SetConstraintManager(s.GetConstraintManager()); evaluate(o.GetConstraintManager(), m); ConstraintManager c = s.GetConstraintManager(); s.SetConstraint("a", "c", 3, 3); s.SetConstraintManager(c); evaluate(s.GetConstraintManager(), m); } }
}
// the formulas over a grid of settings and values
MC_SCENARIO(formulas) {
  static const VD g = {-2, -0.5, 0, 1, 1.5, 3}; static const VD s = {0.25, 1, 3};
  double mu = pick(g, "mean"), s1 = pick(s, "width"), s2 = pick(s, "second width"), x = pick(g, "value"), y = pick(VD{-2, -0.5, 0, 1, 1.5, 3, 1e-5, -1e-6}, "second value"); double r = pick(VD{-0.9, -0.5, 0, 0.3, 0.99}, "correlation");
  ConstraintManager m; MC_OP("mean " << mu << " widths " << s1 << " " << s2 << " value " << x << " " << y << " correlation " << r);
  m.SetConstraint("a", mu, s1, s2); MC_CHECK(close(m.Evaluate({{"a", x}}), sq((x - mu) / (x >= mu ? s1 : s2))), "formula: asymmetric", "");
  m.SetConstraint("a", mu, s1); MC_CHECK(close(m.Evaluate({{"a", x}}), sq((x - mu) / s1)), "formula: symmetric", "");
  { ConstraintManager p; p.SetConstraint("a", mu, s1, "b", mu - 1, s2, r); double u = (x - mu) / s1, v = (y - mu + 1) / s2; double w = (u * u - 2 * r * u * v + v * v) / (2 * (1 - r * r)); MC_CHECK(close(p.Evaluate({{"a", x}, {"b", y}}), w), "formula: pair", ""); }
  { ConstraintManager p; p.SetConstraint("a", "b", mu, s1); double v = std::fabs(y) < 1e-8 ? 1e-8 : y; MC_CHECK(close(p.Evaluate({{"a", x}, {"b", y}}), sq((x / v - mu) / s1)), "formula: ratio", ""); }
  if (x + y != 0) { ConstraintManager p; p.SetFracConstraint("a", "b", mu, s1); MC_CHECK(close(p.Evaluate({{"a", x}, {"b", y}}), sq(((x - y) / (x + y) - mu) / s1)), "formula: fraction", ""); }
  state(Hash().d(mu).d(s1).d(x).d(y).d(r).h);
}

MC_SCENARIO(refusals) {
  static const VD bad = {0, -1, -0.001, NAN}; double b = pick(bad, "width"); int k = choose(13, "kind"); MC_OP("kind " << k << " width " << b); ConstraintManager m; double before = 0; bool with = flip("something set before");
  if (with) { m.SetConstraint("q", 0, 1); m.SetConstraint("r", 1, 1, "s", 1, 1, 0.5); before = m.Evaluate({{"q", 2}, {"r", 2}, {"s", 0}}); MC_CHECK(close(before, 2 + (1 + 1 + 1) / (2 * 0.75)), "formula", ""); }
  VD corr = {1, -1, 1.5, -7}; double c = corr[&b - &bad[0] < 0 ? 0 : choose(4, "correlation")];
  bool t = throws([&] { switch (k) {
    case 0: m.SetConstraint("a", 1, b); break; case 1: m.SetConstraint("a", 1, b, 1); break; case 2: m.SetConstraint("a", 1, 1, b); break;
    case 3: m.SetConstraint("a", 1, b, "b", 1, 1, 0); break; case 4: m.SetConstraint("a", 1, 1, "b", 1, b, 0); break; case 5: m.SetConstraint("a", 1, 1, "b", 1, 1, c); break;
    case 6: m.SetConstraint("a", "b", 1, b); break; case 7: m.SetFracConstraint("a", "b", 1, b); break; case 8: m.SetConstraint(ParameterDict{{"a", 1}}, ShapeFunc(fnDiff), 1, b); break;
    case 9: if (!with) throw 1; m.SetConstraint("r", 1, 1); break; case 10: if (!with) throw 1; m.SetConstraint("q", 1, 1, "t", 1, 1, 0); break; case 11: if (!with) throw 1; m.SetConstraint("s", 1, 1, "r", 1, 1, 0); break; case 12: if (!with) throw 1; m.SetConstraint("t", 1, 1, "r", 1, 1, 0); break;
  } });
  MC_CHECK(t, "refusal: accepted", "");
  // nothing of the refused one is left
  ParameterDict d; if (with) { d["q"] = 2; d["r"] = 2; d["s"] = 0; }
  double after = -1; MC_CHECK(!throws([&] { after = m.Evaluate(d); }) && close(after, before), "refusal: left something behind", "got " << after);
  MC_CHECK(!throws([&] { m.SetConstraint("a", 0, 1); }), "refusal: parameter stays taken", "");
  d["a"] = 2; MC_CHECK(close(m.Evaluate(d), before + 2), "refusal: later constraint", ""); state(k);
}

// many parameters, all kinds at once, each reset later; names whose alphabetical order is not the order set
MC_SCENARIO(many) {
  int n = 2 + choose(tier(20, 60), "parameters"), pat = choose(5, "kinds"), again = choose(3, "set again"); ConstraintManager man; std::vector<std::function<double(const VD &)>> f(4 * n); auto nm = [](int i) { return "p" + std::to_string(i); }; std::vector<bool> paired(n, false);
  for (int i = 0; i + 1 < n; i += 3) if (pat == 1 || pat >= 3) paired[i] = paired[i + 1] = true;
  auto set = [&](int pass) { for (int i = 0; i < n; i++) { double mu = 1 + 0.25 * i + pass, s = 0.5 + 0.125 * i, lo = pass ? s / 2 : s; int j = (i + 1) % n;
    if (!paired[i] && pat != 2) { if (i % 2) { man.SetConstraint(nm(i), mu, s); lo = s; } else man.SetConstraint(nm(i), mu, s, lo); f[4 * i] = [=](const VD &v) { return sq((v[i] - mu) / (v[i] >= mu ? s : lo)); }; }
    if (paired[i] && i % 3 == 0) { double r = pass ? -0.25 : 0.5; man.SetConstraint(nm(i), mu, s, nm(j), mu + 1, 2 * s, r); f[4 * i] = [=](const VD &v) { double x = (v[i] - mu) / s, y = (v[j] - mu - 1) / (2 * s); return (x * x - 2 * r * x * y + y * y) / (2 * (1 - r * r)); }; }
    if (pat == 2 || pat == 4) { man.SetConstraint(nm(i), nm(j), mu, s); f[4 * i + 1] = [=](const VD &v) { return sq((v[i] / v[j] - mu) / s); }; man.SetFracConstraint(nm(j), nm(i), mu, s); f[4 * i + 2] = [=](const VD &v) { return sq(((v[j] - v[i]) / (v[i] + v[j]) - mu) / s); }; }
    if (pat == 3 && i % 2) { ParameterDict d; d[nm(i)] = 0; d[nm(j)] = 0; std::string a = nm(i), b = nm(j); man.SetConstraint(d, ShapeFunc([a, b](const ParameterDict &p) { return p.at(a) - 2 * p.at(b); }), mu, s); f[4 * i + 3] = [=](const VD &v) { return sq((v[i] - 2 * v[j] - mu) / s); }; } } };
  auto look = [&](const ConstraintManager &m) { for (int t = 0; t < 4; t++) { VD v; ParameterDict d; for (int i = 0; i < n; i++) { v.push_back(0.5 + (i * (t + 2) % 7) * 0.75 + 0.01 * i); d[nm(i)] = v[i]; } double want = 0; for (auto &x : f) if (x) want += x(v); double got = m.Evaluate(d); MC_CHECK(close(got, want, 1e-10, 1e-10), "many: value", n << " parameters got " << got << " expected " << want); state(Hash().d(want).h); } };
  MC_OP(n << " parameters, kinds " << pat); if (pat != 3 || again != 1) { set(0); look(man); } ConstraintManager c(man); if (again && (pat != 3 || again == 2)) { if (pat == 3) { look(c); return; } set(1); look(man); }
}
