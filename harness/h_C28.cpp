// C28 Fitted and truth-space functions: densities and cumulative values agree
#include "mc.h"
#include <AxisCollection.h>
#include <DistTools.h>
#include <Exceptions.h>
#include <Gaussian.h>
#include <Histogram.h>
#include <JumpPDF.h>
#include <SquareRootScale.h>
#include <Heaviside.h>
#include <TRandom3.h>
#include <VaryingCDF.h>
#include <algorithm>
#include <cmath>
#include <iostream>
#include <map>
#include <memory>
#include <set>
using namespace mc;
typedef std::vector<double> VD;
static struct Quiet { Quiet() { std::cout.setstate(std::ios::failbit); } } quiet;
struct Hooks { ~Hooks() { RandHooks::gaus() = nullptr; } };

// what a Gaussian is
struct Ref {
  VD m, s; double cut = 6;
  double density(const VD &x) const { double r = 1; for (size_t i = 0; i < m.size(); i++) { double z = (x[i] - m[i]) / s[i]; r *= std::exp(-z * z / 2) / (s[i] * std::sqrt(2 * M_PI)); } return r; }
  double cdf(size_t i, double x) const { if (s[i] == 0) return x < m[i] ? 0 : 1; double z = (x - m[i]) / s[i]; return z > cut ? 1 : z < -cut ? 0 : 0.5 * std::erfc(-z / std::sqrt(2.)); }
  double box(const VD &a, const VD &b) const { double r = 1; for (size_t i = 0; i < m.size(); i++) r *= cdf(i, b[i]) - cdf(i, a[i]); return r; }
};
static VD at(const Ref &r, const VD &z) { VD x; for (size_t i = 0; i < r.m.size(); i++) x.push_back(r.m[i] + z[i] * r.s[i]); return x; }
static const VD Z = {-7.2, -3.3, -0.4, 0, 1.1, 2.9, 6.6};
static void same(const Gaussian &g, const Ref &r, const std::string &how) {
  size_t n = r.m.size(); MC_CHECK(g.GetNDims() == n, "dimensions", how); MC_CHECK(g.GetMeans() == r.m && g.GetStdDevs() == r.s, "means and widths", how << " " << vstr(g.GetMeans()) << " " << vstr(g.GetStdDevs())); MC_CHECK(g.GetCdfCutOff() == r.cut, "cut off", how); MC_CHECK(g.Integral() == 1, "full integral", how);
  std::vector<VD> pts; size_t total = 1; for (size_t i = 0; i < n; i++) total *= n == 1 ? Z.size() : 3; for (size_t c = 0; c < total; c++) { VD z; size_t q = c; for (size_t i = 0; i < n; i++) { if (n == 1) { z.push_back(Z[q % Z.size()]); q /= Z.size(); } else { z.push_back(Z[(q % 3) * 2 + (i + c) % 2]); q /= 3; } } pts.push_back(at(r, z)); }
  for (auto &x : pts) { bool wide = true; for (double s : r.s) wide &= s > 0; if (wide) MC_CHECK(close(g(x), r.density(x), 1e-11, 1e-300), "density", how << " at " << vstr(x) << ": " << g(x) << " expected " << r.density(x)); for (size_t i = 0; i < n; i++) MC_CHECK(close(g.Cdf(i, x[i]), r.cdf(i, x[i]), 1e-10, 1e-14), "cumulative value", how << " of dimension " << i << " at " << x[i] << ": " << g.Cdf(i, x[i]) << " expected " << r.cdf(i, x[i])); }
  for (auto &a : pts) for (auto &b : pts) { double w = r.box(a, b); MC_CHECK(std::fabs(g.Integral(a, b) - w) < 1e-12 * (1 + std::fabs(w)), "integral over a box", how << " " << vstr(a) << " to " << vstr(b) << ": " << g.Integral(a, b) << " expected " << w); }
  VD wrong(n + 1, 0.5), right(n, 0.5); MC_CHECK(throwsA<DimensionError>([&] { g(wrong); }) && throwsA<DimensionError>([&] { g.Integral(wrong, right); }) && throwsA<DimensionError>([&] { g.Integral(right, wrong); }) && throws([&] { g.Cdf(n, 0); }) && throws([&] { g.GetMean(n); }) && throws([&] { g.GetStDev(n); }) && throwsA<DimensionError>([&] { g(VD(n - 1, 0)); }), "wrong dimension accepted", how); }
static std::string nm(const char *k, size_t i) { return k + std::to_string(i); }
static void everyRoute(int n, const VD &ms, const VD &ss) {
  Ref r; for (int i = 0; i < n; i++) { r.m.push_back(pick(ms, "mean") + 0.25 * i); r.s.push_back(pick(ss, "width") * (1 + 0.5 * i)); } r.cut = pick(VD{6, 3, 0.7}, "cut off"); int route = choose(9, "route"); if (route == 8 && n > 1) prune(); MC_OP("mean " << vstr(r.m) << " width " << vstr(r.s) << " cut " << r.cut << " route " << route); std::unique_ptr<Gaussian> g; std::string how = "route " + std::to_string(route);
  ParameterDict d; for (int i = 0; i < n; i++) { d[nm("means_", i)] = r.m[i]; d[nm("stddevs_", i)] = r.s[i]; }
  switch (route) {
  case 0: g.reset(new Gaussian(r.m, r.s, "g")); break;
  case 1: g.reset(new Gaussian(size_t(n), "g")); same(*g, Ref{VD(n, 0), VD(n, 1)}, "standard"); for (int i = n - 1; i >= 0; i--) { g->SetMean(i, r.m[i]); g->SetStDev(i, r.s[i]); } break;
  case 2: g.reset(new Gaussian(size_t(n))); g->SetStDevs(r.s); g->SetMeans(r.m); break;
  case 3: g.reset(new Gaussian(VD(n, 5), VD(n, 0.1))); g->SetParameters(d); break;
  case 4: g.reset(new Gaussian(VD(n, 5), VD(n, 0.1))); for (auto &x : d) g->SetParameter(x.first, x.second); break;
  case 5: { Gaussian o(r.m, r.s, "g"); o.SetCdfCutOff(r.cut); g.reset(new Gaussian(o)); o.SetMean(0, 77); o.SetStDev(0, 77); o.SetParameter("means_0", 78); break; }
  case 6: { Gaussian o(r.m, r.s, "g"); o.SetCdfCutOff(r.cut); g.reset(new Gaussian(3, 4)); *g = o; o.SetMean(0, 77); o.SetStDev(0, 77); break; }
  case 7: { Gaussian o(r.m, r.s, "g"); o.SetCdfCutOff(r.cut); g.reset(static_cast<Gaussian *>(o.Clone())); o.SetCdfCutOff(1); o.SetStDev(0, 77); break; }
  case 8: g.reset(new Gaussian(r.m[0], r.s[0], "g")); break; }
  if (route < 5 || route == 8) { Ref six = r; six.cut = 6; same(*g, six, how + " before the cut off"); g->SetCdfCutOff(r.cut); } same(*g, r, how); ParameterDict p = g->GetParameters(); MC_CHECK(mclose(p, d, 0, 0) && g->GetParameterCount() == d.size(), "parameters", mstr(p)); state(Hash().vd(r.m).vd(r.s).d(r.cut).h); }
MC_SCENARIO_SPLIT(one_dimension, 3) { everyRoute(1, {0, -1.5, 100, 1e-8, -3e5}, {1, 0.02, 30, 1e-6, 1e4}); }
MC_SCENARIO_SPLIT(two_dimensions, 3) { everyRoute(2, thorough() ? VD{0, -1.5, 100} : VD{0, -1.5}, thorough() ? VD{1, 0.02, 30} : VD{1, 0.02}); }
MC_SCENARIO_SPLIT(three_dimensions, 4) { everyRoute(3, thorough() ? VD{0, 7} : VD{1}, {1, 0.2}); }

// everything that can be done to one, evaluated after every step
MC_SCENARIO_SPLIT(history, 4) {
  int n = 2; Ref r{{0, 1}, {1, 2}}; Gaussian g(r.m, r.s, "g"), spare(VD{9, 8}, VD{7, 6}, "s"); std::vector<std::string> mn = {"means_0", "means_1"}, sn = {"stddevs_0", "stddevs_1"}; int depth = tier(4, 5);
  for (int step = 0; step < depth; step++) { int op = choose(13, "operation"); bool refused = false, want = false; Ref was = r; auto set = [&](const std::string &k, double v) { for (int i = 0; i < n; i++) if (sn[i] == k && v < 0) { want = true; return; } for (int i = 0; i < n; i++) { if (mn[i] == k) r.m[i] = v; if (sn[i] == k) r.s[i] = v; } }; auto rename = [&](std::string a, const std::string &b) { double v = 0; bool have = false; for (int i = n - 1; i >= 0; i--) if (sn[i] == b) { v = r.s[i]; have = true; } for (int i = n - 1; i >= 0; i--) if (mn[i] == b) { v = r.m[i]; have = true; } if (have) { set(a, v); if (want) return; } for (int i = 0; i < n; i++) { if (mn[i] == a) mn[i] = b; if (sn[i] == a) sn[i] = b; } };
    MC_OP("op " << op);
    try { switch (op) {
      case 0: if (mn[0] == mn[1]) prune(); /* undoes the tie */ r.m[1] = -2; g.SetMean(1, -2); break;
      case 1: if (sn[0] == sn[1]) prune(); r.s[0] = 0.3; g.SetStDev(0, 0.3); break;
      case 2: want = true; g.SetStDev(1, step % 2 ? std::nan("") : -1); break;
      case 3: want = true; g.SetStDevs({0.5, step % 2 ? -0.5 : std::nan("")}); break;
      case 4: want = true; g.SetMeans({1}); break;
      case 5: want = true; g.SetStDevs({1, 2, 3}); break;
      case 6: { std::string k = sn[1]; set(k, 4); g.SetParameter(k, 4); break; }
      case 7: { std::string k = mn[0]; set(k, 1.25); ParameterDict d = {{k, 1.25}}; if (mn[1] != k && sn[1] != k && sn[0] != k) { std::string k2 = mn[1]; set(k2, 0.5); d[k2] = 0.5; } g.SetParameters(d); break; }
      case 8: { std::string a = sn[0]; if (a == "wide") prune(); for (int i = 0; i < n; i++) if (mn[i] == a) prune(); rename(a, "wide"); g.RenameParameter(a, "wide"); break; }
      case 9: { std::string a = sn[1]; if (a == "wide") prune(); rename(a, "wide"); g.RenameParameter(a, "wide"); break; }
      case 10: { std::string a = mn[0]; if (a == mn[1]) prune(); std::string b = mn[1]; rename(a, b); g.RenameParameter(a, b); break; }
      case 11: r.cut = r.cut == 6 ? 2 : 6; g.SetCdfCutOff(r.cut); break;
      case 12: { spare = g; Gaussian c(spare); same(c, r, "copy"); spare.SetMean(0, 55); g = c; break; } } } catch (const std::exception &) { refused = true; }
    MC_CHECK(refused == want, want ? "accepted" : "refused", "op " << op); if (refused) r = was; same(g, r, "after " + std::to_string(op)); ParameterDict p = g.GetParameters(), w; for (int i = 0; i < n; i++) { w[mn[i]] = r.m[i]; } for (int i = 0; i < n; i++) { bool tied = w.count(sn[i]) && w[sn[i]] != r.s[i]; MC_CHECK(!tied, "parameters of one name differ", sn[i]); w[sn[i]] = r.s[i]; } MC_CHECK(mclose(p, w, 0, 0), "parameters", mstr(p) << " expected " << mstr(w)); state(Hash().vd(r.m).vd(r.s).vs(mn).vs(sn).d(r.cut).h); } }
MC_SCENARIO(no_width) {
  Gaussian g(VD{2, 0}, VD{1, 1}); double m = pick(VD{2, -1, 0}, "mean"); g.SetMean(0, m); g.SetStDev(0, 0); g.SetStDev(1, 0.5); Ref r{{m, 0}, {0, 0.5}}; for (double x : {m - 3, m - 1e-9, m, m + 1e-9, m + 2}) { MC_CHECK(g.Cdf(0, x) == (x < m ? 0 : 1), "cumulative value without a width", x); if (x != m) MC_CHECK(g(VD{x, 0.2}) == 0, "density without a width", x << " " << g(VD{x, 0.2})); for (double y : {m - 1, m, m + 1}) MC_CHECK(close(g.Integral({x, -1}, {y, 0.3}), r.box({x, -1}, {y, 0.3}), 1e-10, 1e-14), "integral without a width", x << " " << y); } state(m); }
MC_SCENARIO(creation) {
  int k = choose(12, "case"); bool bad = k < 9; std::string out; int x = isolated([&]() -> std::string { switch (k) { case 0: Gaussian(0, 0); break; case 1: Gaussian(0, -1); break; case 2: Gaussian(VD{0, 1}, VD{1}); break; case 3: Gaussian(VD{0}, VD{1, 1}); break; case 4: Gaussian(VD{0, 0}, VD{1, 0}); break; case 5: Gaussian(VD{0, 0}, VD{-0.1, 1}); break; case 6: Gaussian(0, NAN); break; case 7: Gaussian(VD{0, 0, 0}, VD{1, 1, -1}); break; case 8: Gaussian(VD{}, VD{1}); break; case 9: Gaussian(0, 1e-300); break; case 10: Gaussian(VD{0, 5}, VD{1, 2}); break; case 11: Gaussian(-1, 1); break; } return "made"; }, &out, 5); MC_CHECK(x == (bad ? 1 : 0), bad ? "no width accepted" : "refused", k << " " << out); Gaussian g; same(g, Ref{{0}, {1}}, "default"); MC_CHECK(g.GetName() == "gaussian" && Gaussian(2, "n").GetName() == "n" && Gaussian(1., 2., "m").GetName() == "m", "name", ""); state(k); }
MC_SCENARIO(samples) {
  int n = 1 + choose(3, "dims"), kind = choose(3, "kind"); Hooks hooks; VD m, s, to; for (int i = 0; i < n; i++) { m.push_back(i - 0.5); s.push_back(0.3 + i); to.push_back(10 * i + 2); } Gaussian g(m, s); std::vector<std::pair<double, double>> asked; RandHooks::gaus() = [&](double a, double b) { asked.push_back({a, b}); return a + b * pick(VD{-1.5, 0.5}, "normal"); }; VD x, base = m, width = s;
  if (kind == 0) x = g.Sample(); else if (kind == 1) { JumpPDF j("j", &g); x = j.Sample(to); for (int i = 0; i < n; i++) base[i] += to[i]; } else { VaryingCDF v("v"); v.SetKernel(&g); SquareRootScale q("q"); q.SetGradient(0.5); v.SetDependance("stddevs_0", &q); x = v.Sample(to); width[0] = 0.5 * std::sqrt(to[0]); for (int i = 0; i < n; i++) base[i] += to[i]; }
  MC_CHECK((int)x.size() == n && (int)asked.size() == n, "size of a sample", x.size()); for (int i = 0; i < n; i++) { bool hit = false; for (double z : {-1.5, 0.5}) hit |= close(x[i], base[i] + z * width[i]); MC_CHECK(hit, "sample", vstr(x) << " about " << vstr(base)); } auto seen = asked; std::sort(seen.begin(), seen.end()); std::vector<std::pair<double, double>> w; for (int i = 0; i < n; i++) w.push_back({m[i], width[i]}); std::sort(w.begin(), w.end()); for (int i = 0; i < n; i++) MC_CHECK(close(seen[i].first, w[i].first) && close(seen[i].second, w[i].second), "mean and width drawn with", seen[i].first << " " << seen[i].second); state(Hash().vd(x).h); }

// conditional on where
MC_SCENARIO_SPLIT(jumps, 3) {
  int n = 1 + choose(3, "dims"); Ref r; for (int i = 0; i < n; i++) { r.m.push_back(pick(VD{0, -1.5}, "mean") + 0.3 * i); r.s.push_back(pick(VD{1, 0.2}, "width") * (i + 1)); } Gaussian g(r.m, r.s); std::unique_ptr<ConditionalPDF> j; int route = choose(4, "route"); if (route == 0) j.reset(new JumpPDF("j", &g)); else if (route == 1) { JumpPDF o("j", &g); j.reset(o.Clone()); o.SetParameter("means_0", 44); } else if (route == 2) { JumpPDF o("j", &g); auto *t = new JumpPDF("t"); *t = o; j.reset(t); o.SetParameter("stddevs_0", 44); } else { JumpPDF o("o", &g); VaryingCDF v("v"); if (flip("kernel is a jump")) v.SetKernel(&o); else v.SetKernel(&g); j.reset(v.Clone()); }
  g.SetMean(0, 33); VD to; for (int i = 0; i < n; i++) to.push_back(pick(VD{0, 2.5, -7}, "to") * (i + 1)); VD a, b; for (int i = 0; i < n; i++) { a.push_back(r.m[i] + to[i] - 0.8 * r.s[i]); b.push_back(r.m[i] + to[i] + 0.3 * (i + 1)); } auto off = [&](const VD &x) { VD d; for (int i = 0; i < n; i++) d.push_back(x[i] - to[i]); return d; };
  for (auto &x : {a, b, to}) MC_CHECK(close(j->ConditionalProbability(x, to), r.density(off(x)), 1e-10, 1e-300), "density after a jump", vstr(x) << " to " << vstr(to)); MC_CHECK(close(j->Integral(a, b, to), r.box(off(a), off(b)), 1e-9, 1e-13), "integral after a jump", vstr(to)); std::string out; VD few(n - 1, 0.5); if (to[0] == 0) for (int k = 0; k < 3; k++) { int x = isolated([&]() -> std::string { return str(k == 0 ? j->ConditionalProbability(a, few) : k == 1 ? j->Integral(a, b, few) : j->Sample(few)[0]); }, &out, 5); MC_CHECK(x == 1, "jump to too few coordinates not refused", k << " of " << n << " " << out); } state(Hash().vd(r.m).vd(r.s).vd(to).d(route).h); }
// a line in one of the coordinates, with parameters to fit
struct Line : Function { std::string a, b; double va, vb; int dim; Line(const std::string &n1, const std::string &n2, double v1, double v2, int d) : a(n1), b(n2), va(v1), vb(v2), dim(d) {} double operator()(const VD &v) const override { return va + vb * v.at(dim); } size_t GetNDims() const override { return 1; } Function *Clone() const override { return new Line(*this); }
  void SetParameter(const std::string &n, double v) override { if (n == a) va = v; else if (n == b) vb = v; else throw NotFoundError("line"); } double GetParameter(const std::string &n) const override { if (n == a) return va; if (n == b) return vb; throw NotFoundError("line"); } void SetParameters(const ParameterDict &p) override { va = p.at(a); vb = p.at(b); } ParameterDict GetParameters() const override { return {{a, va}, {b, vb}}; } size_t GetParameterCount() const override { return 2; } std::set<std::string> GetParameterNames() const override { return {a, b}; } void RenameParameter(const std::string &o, const std::string &n) override { if (a == o) a = n; else if (b == o) b = n; } std::string GetName() const override { return "line"; } void SetName(const std::string &) override {} };
MC_SCENARIO_SPLIT(varying, 5) {
  int n = 1 + choose(2, "dims"), nf = choose(3, "functions"); Ref r; for (int i = 0; i < n; i++) { r.m.push_back(0.2 * i); r.s.push_back(1 + i); } Gaussian g(r.m, r.s); bool renamed = flip("renamed"); std::vector<std::string> targets; for (int i = 0; i < n; i++) { targets.push_back(nm("means_", i)); targets.push_back(nm("stddevs_", i)); } if (renamed) { g.RenameParameter("stddevs_0", "w"); targets[1] = "w"; }
  VaryingCDF v("v"); if (flip("kernel last")) {} else v.SetKernel(&g); struct Dep { std::string target; int kind, dim; double p[2]; std::string names[2]; }; std::vector<Dep> deps; std::set<std::string> used;
  for (int f = 0; f < nf; f++) { Dep d; d.target = pick(targets, "parameter"); if (used.count(d.target)) prune(); used.insert(d.target); d.kind = choose(2, "function"); d.dim = d.kind ? choose(n, "of") : 0; if (d.kind == 0) { d.p[0] = 0.4 + f; d.names[0] = nm("grad", f); SquareRootScale q("q"); q.RenameParameter("grad", d.names[0]); q.SetGradient(d.p[0]); v.SetDependance(d.target, &q); } else { d.p[0] = 1.5 + f; d.p[1] = 0.25; d.names[0] = nm("off", f); d.names[1] = nm("slope", f); Line l(d.names[0], d.names[1], d.p[0], d.p[1], d.dim); v.SetDependance(d.target, &l); } deps.push_back(d); }
  v.SetKernel(&g); int steps = 2; std::unique_ptr<ConditionalPDF> owner; ConditionalPDF *c = &v;
  for (int step = 0; step < steps; step++) { VD to; for (int i = 0; i < n; i++) to.push_back(pick(VD{1, 4.5}, "at") + 2 * i); int act = nf ? choose(4, "act") : choose(2, "act"); if (act == 1) { owner.reset(c->Clone()); c = owner.get(); } if (act == 2) { Dep &d = deps.back(); d.p[0] = 2.25; c->SetParameter(d.names[0], 2.25); } if (act == 3) { ParameterDict p; for (auto &d : deps) for (int i = 0; i <= d.kind; i++) { d.p[i] += 0.125; p[d.names[i]] = d.p[i]; } c->SetParameters(p); }
    Ref now = r; for (auto &d : deps) { double val = d.kind ? d.p[0] + d.p[1] * to[d.dim] : d.p[0] * std::sqrt(to[0]); for (int i = 0; i < n; i++) { if (targets[2 * i] == d.target) now.m[i] = val; if (targets[2 * i + 1] == d.target) now.s[i] = val; } }
    VD a, b, da, db; for (int i = 0; i < n; i++) { da.push_back(now.m[i] - 0.7); db.push_back(now.m[i] + 1.3); a.push_back(da[i] + to[i]); b.push_back(db[i] + to[i]); } MC_OP("at " << vstr(to) << " means " << vstr(now.m) << " widths " << vstr(now.s)); double p, q; if (flip("integral first")) { q = c->Integral(a, b, to); p = c->ConditionalProbability(a, to); } else { p = c->ConditionalProbability(a, to); q = c->Integral(a, b, to); } MC_CHECK(close(p, now.density(da), 1e-9, 1e-14), "varying density", p << " expected " << now.density(da)); MC_CHECK(close(q, now.box(da, db), 1e-9, 1e-14), "varying integral", q << " expected " << now.box(da, db));
    ParameterDict w; for (auto &d : deps) for (int i = 0; i <= d.kind; i++) w[d.names[i]] = d.p[i]; MC_CHECK(mclose(c->GetParameters(), w, 0, 0) && c->GetParameterCount() == w.size(), "parameters of the functions", mstr(c->GetParameters())); state(Hash().vd(now.m).vd(now.s).vd(to).h); }
  MC_CHECK(throws([&] { VaryingCDF e("e"); e.Integral({0}, {1}, {0}); }) && throws([&] { VaryingCDF e("e"); e.ConditionalProbability({0}, {1}); }) && throws([&] { VaryingCDF e("e"); e.Sample({1}); }) && throws([&] { JumpPDF e("e"); e.Integral({0}, {1}, {0}); }) && throws([&] { JumpPDF e("e"); e.Sample({0}); }), "no kernel accepted", ""); }
MC_SCENARIO(square_root) {
  double a = pick(VD{1, -2, 0.25, 0}, "gradient"), x = pick(VD{0, 1, 2.25, 1e6, 1e-8, 0.3, -0.49}, "at"); int route = choose(4, "route"); SquareRootScale q("q"); MC_CHECK(q.GetGradient() == 1 && q.GetNDims() == 1, "default", ""); std::string k = "grad"; if (route == 0) q.SetGradient(a); else if (route == 1) q.SetParameter("grad", a); else if (route == 2) { k = "res"; q.RenameParameter("grad", "res"); q.SetParameters({{"res", a}, {"grad", 99}}); } else { SquareRootScale o("o"); o.SetGradient(a); q = o; o.SetGradient(5); } std::unique_ptr<Function> c(q.Clone()); double w = a * std::sqrt(std::fabs(x)); MC_CHECK(close(q({x}), w) && close((*c)({x, 7}), w), "square root", q({x}) << " expected " << w); MC_CHECK(q.GetParameter(k) == a && q.GetParameters() == (ParameterDict{{k, a}}) && q.GetParameterNames().count(k) && q.GetParameterCount() == 1, "parameter", ""); MC_CHECK(throws([&] { q(VD{}); }) && throws([&] { q.SetParameter("other", 1); }) && throws([&] { q.GetParameter("other"); }) && throws([&] { q.SetParameters({{"other", 1}}); }) && throws([&] { q.RenameParameter("other", "x"); }), "other parameters accepted", ""); state(Hash().d(a).d(x).d(route).h); }
MC_SCENARIO_SPLIT(to_histogram, 3) {
  int n = 1 + choose(3, "dims"); AxisCollection axes; Ref r; for (int i = 0; i < n; i++) { int b = choose(3, "binning"); if (b == 0) axes.AddAxis(BinAxis(nm("a", i), -2, 4, 3)); else if (b == 1) axes.AddAxis(BinAxis(nm("a", i), VD{0, 0.5, 3}, VD{0.5, 3, 3.1})); else axes.AddAxis(BinAxis(nm("a", i), -1, 1, 1)); r.m.push_back(pick(VD{0, 1.25}, "mean")); r.s.push_back(pick(VD{0.5, 2}, "width")); } Gaussian g(r.m, r.s); Histogram h = DistTools::ToHist(g, axes); MC_CHECK(h.GetAxes() == axes && h.GetNBins() == axes.GetNBins(), "axes", ""); double sum = 0; for (size_t i = 0; i < h.GetNBins(); i++) { std::vector<size_t> ix = axes.UnpackIndices(i); VD lo, hi; for (int d = 0; d < n; d++) { lo.push_back(axes.GetAxis(d).GetBinLowEdge(ix[d])); hi.push_back(axes.GetAxis(d).GetBinHighEdge(ix[d])); } double w = r.box(lo, hi); sum += w; MC_CHECK(std::fabs(h.GetBinContent(i) - w) < 1e-12, "content of a bin", i << ": " << h.GetBinContent(i) << " expected " << w); } MC_CHECK(close(h.Integral(), sum, 1e-10, 1e-13), "sum of the bins", ""); Gaussian other(size_t(n + 1)); MC_CHECK(throws([&] { DistTools::ToHist(other, axes); }), "wrong dimension accepted", ""); state(Hash().vd(r.m).vd(r.s).vd(h.GetBinContents()).h); }

// a step is one unless a constrained coordinate lies beyond it; the latest constraint of a dimension counts
struct Step : Heaviside { int n; Step(int d) : Heaviside(d), n(d) {} size_t GetNDims() const override { return n; } Function *Clone() const override { return new Step(*this); } void SetParameter(const std::string &, double) override {} double GetParameter(const std::string &) const override { return 0; } void SetParameters(const ParameterDict &) override {} ParameterDict GetParameters() const override { return {}; } size_t GetParameterCount() const override { return 0; } std::set<std::string> GetParameterNames() const override { return {}; } void RenameParameter(const std::string &, const std::string &) override {} std::string GetName() const override { return "step"; } void SetName(const std::string &) override {} };
MC_SCENARIO_SPLIT(steps, 3) {
  int n = 1 + choose(3, "dims"), k = choose(tier(4, 5), "constraints"); Step h(n); std::vector<int> side(n, 0); VD at(n, 0); static const VD pos = {-1.5, 0, 2};
  for (int i = 0; i < k; i++) { int d = choose(n, "dim"); side[d] = flip("minimum") ? -1 : 1; at[d] = pick(pos, "at"); h.AddConstraint(d, at[d], side[d] < 0 ? Heaviside::MINIMUM : Heaviside::MAXIMUM); MC_OP((side[d] < 0 ? "minimum " : "maximum ") << at[d] << " in " << d); }
  MC_CHECK(throws([&] { h.AddConstraint(n, 0, Heaviside::MAXIMUM); }) && throws([&] { h.AddConstraint(-1, 0, Heaviside::MINIMUM); }) && throws([&] { h.AddConstraint(0, 0, Heaviside::IGNORE); }), "step: constraint that makes no sense accepted", ""); MC_CHECK(throws([&] { h(VD(n + 1, 0)); }) && throws([&] { h(VD(n - 1, 0)); }), "step: wrong number of values answered", "");
  std::unique_ptr<Function> c(h.Clone()); VD per = {-1e9, 1e9}; for (double p : pos) for (double q : {p, std::nextafter(p, 1e300), std::nextafter(p, -1e300)}) per.push_back(q); size_t tot = 1; for (int d = 0; d < n; d++) tot *= per.size();
  for (size_t g = 0; g < tot; g++) { VD x; size_t r = g; for (int d = 0; d < n; d++) { x.push_back(per[r % per.size()]); r /= per.size(); } bool in = true; for (int d = 0; d < n; d++) if (side[d] > 0 ? x[d] > at[d] : side[d] < 0 ? x[d] < at[d] : false) in = false; MC_CHECK(h(x) == (in ? 1 : 0) && (*c)(x) == h(x), "step", vstr(x) << " gives " << h(x)); }
  state(Hash().vd(VD(side.begin(), side.end())).vd(at).h);
}

// many dimensions: alphabetical and numerical order of the parameters differ
MC_SCENARIO_SPLIT(many, 2) {
  int n = pick(std::vector<int>{5, 10, 12, 25}, "dims"), route = choose(6, "route"); Ref r; for (int i = 0; i < n; i++) { r.m.push_back(i - 0.25 * (i % 3)); r.s.push_back(0.5 + 0.125 * i); } std::unique_ptr<Gaussian> g; std::vector<std::string> mn, sn; for (int i = 0; i < n; i++) { mn.push_back(nm("means_", i)); sn.push_back(nm("stddevs_", i)); }
  if (route == 0) g.reset(new Gaussian(r.m, r.s)); else { g.reset(new Gaussian((size_t)n)); if (route == 1) { for (int i = n - 1; i >= 0; i--) { g->SetMean(i, r.m[i]); g->SetStDev(i, r.s[i]); } } else if (route == 2) { g->SetMeans(r.m); g->SetStDevs(r.s); } else { if (route == 4) for (int i = 0; i < n; i++) { g->RenameParameter(mn[i], nm("m", n - i)); g->RenameParameter(sn[i], nm("s", n - i)); mn[i] = nm("m", n - i); sn[i] = nm("s", n - i); } ParameterDict p; for (int i = 0; i < n; i++) { p[mn[i]] = r.m[i]; p[sn[i]] = r.s[i]; } if (route == 5) { for (auto &x : p) g->SetParameter(x.first, x.second); } else g->SetParameters(p); } }
  if (flip("copied")) { std::unique_ptr<Gaussian> o(new Gaussian(*g)); g->SetMean(0, 77); g = std::move(o); }
  ParameterDict w; for (int i = 0; i < n; i++) { w[mn[i]] = r.m[i]; w[sn[i]] = r.s[i]; } MC_CHECK(g->GetMeans() == r.m && g->GetStdDevs() == r.s && (int)g->GetNDims() == n, "means and widths (many)", vstr(g->GetMeans()) << " " << vstr(g->GetStdDevs())); MC_CHECK(mclose(g->GetParameters(), w, 0, 0) && (int)g->GetParameterCount() == 2 * n, "parameters (many)", mstr(g->GetParameters())); for (auto &x : w) MC_CHECK(g->GetParameter(x.first) == x.second, "parameter (many)", x.first);
  for (int k = 0; k < n + 2; k++) { VD z, a, b; for (int i = 0; i < n; i++) { z.push_back(i == k ? 1.75 : 0.2 * ((i + k) % 3)); a.push_back(r.m[i] - r.s[i] * (i == k ? 1 : 3)); b.push_back(r.m[i] + r.s[i] * (i == k ? 0.5 : 2.5)); } VD x = at(r, z); MC_CHECK(close((*g)(x), r.density(x), 1e-10, 1e-300), "density (many)", (*g)(x) << " expected " << r.density(x)); MC_CHECK(close(g->Integral(a, b), r.box(a, b), 1e-9, 1e-14), "integral over a box (many)", g->Integral(a, b) << " expected " << r.box(a, b)); if (k < n) MC_CHECK(close(g->Cdf(k, x[k]), r.cdf(k, x[k]), 1e-10, 1e-14), "cumulative value (many)", k); }
  state(Hash().b(n).b(route).h); }
