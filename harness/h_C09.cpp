// C09 binned systematics: the whole response matrix against the physics
#include "mc.h"
#include <Scale.h>
#include <Shift.h>
#include <ScaleFunction.h>
#include <Shape.h>
#include <Convolution.h>
#include <Renorm.h>
#include <Gaussian.h>
#include <JumpPDF.h>
#include <VaryingCDF.h>
#include <SquareRootScale.h>
#include <memory>
#include <algorithm>
using namespace mc;
typedef std::vector<double> VD;
typedef std::vector<std::string> VN;

static const std::vector<std::pair<std::string, VD>> &axisPool() {
  static const std::vector<std::pair<std::string, VD>> p = {
      {"x", {0, 1, 2, 3}}, {"y", {-1, 0, 0.5, 2}}, {"z", {-1, 1}}, {"w", {10, 12.5, 13}}, {"v", {-2, -1, 1, 2}}};
  return p;
}
static BinAxis mkAxis(int i) {
  auto &a = axisPool()[i]; VD lo(a.second.begin(), a.second.end() - 1), hi(a.second.begin() + 1, a.second.end());
  if (i == 0) return BinAxis("x", 0, 3, 3);
  return BinAxis(a.first, lo, hi);
}
// enumerate an ordered selection of n distinct axes
static std::vector<int> layout(int maxd) {
  int n = 1 + choose(maxd, "dimensions"); std::vector<int> left = {0, 1, 2, 3, 4}, r;
  for (int i = 0; i < n; i++) { int k = choose((int)left.size(), "axis"); r.push_back(left[k]); left.erase(left.begin() + k); }
  return r;
}
static std::vector<size_t> unpack(size_t b, const std::vector<size_t> &n) { std::vector<size_t> r(n.size()); for (int i = (int)n.size() - 1; i >= 0; i--) { r[i] = b % n[i]; b /= n[i]; } return r; }
static double overlap(double lo, double hi, double a, double b) {  // fraction of [lo,hi] within [a,b]
  if (hi == lo) return -1;
  return std::max(0., std::min(hi, b) - std::max(lo, a)) / (hi - lo);
}
static double phi(double x, double s) { if (s == 0) return x > 0 ? 1 : 0; return 0.5 * std::erfc(-x / s / std::sqrt(2.)); }

static double linear(const ParameterDict &p, const double &x) { return p.at("a") * x + p.at("b"); }
static double cubic(const ParameterDict &p, const double &x) { return p.at("a") * x * x * x + x + p.at("b"); }
static double shapeFn(const ParameterDict &p, const VD &v) { double s = p.at("a"), f = 1; for (double x : v) { s += f * x * x; f *= 3; } return p.at("b") * s; }

MC_SCENARIO_SPLIT(response, 3) {
  std::vector<int> lay = layout(3);
  size_t d = lay.size();
  int kind = choose(7, "kind");  // 0 scale 1 shift 2 linear function 3 cubic function 4 shape 5 convolution 6 varying convolution
  bool multi = kind >= 4;
  std::vector<int> trans = {choose((int)d, "transformed")};
  if (multi && d > 1 && flip("two transformed")) { int k = choose((int)d - 1, "second"); if (k >= trans[0]) k++; trans.push_back(k); if (d > 2 && flip("three transformed")) trans.push_back(3 - trans[0] - trans[1]); }
  AxisCollection ax; VN obs, tobs; std::vector<size_t> nb;
  for (int a : lay) { ax.AddAxis(mkAxis(a)); obs.push_back("obs_" + axisPool()[a].first); nb.push_back(axisPool()[a].second.size() - 1); }
  for (int t : trans) tobs.push_back(obs[t]);
  size_t N = ax.GetNBins();
  double v1 = 0, v2 = 0;
  std::unique_ptr<Systematic> s;
  static const VD scales = {1, 0.5, 2, 0.9, 0.9999, 1.0001, 1.3, 1e-3, 100}, shifts = {0, 0.5, 1, 2, -1, 0.3, -2.7, 100, -100}, as = {1, 2, 0.25, -1, -0.5}, bs = {0, 0.6, -1.4}, sig = {0.1, 0.5, 2}, means = {0, 0.3, -1};
  static const VD scalesT = {0.05, 0.75, 0.999999, 1.0000001, 1.1, 1.5, 1.9, 3, 1e6}, shiftsT = {0.05, -0.5, 0.1, 0.999, 1.001, 1.5, 3, -3, 4.4, -3.1, 1e-9};
  VD sc = scales, sh = shifts; if (thorough()) { sc.insert(sc.end(), scalesT.begin(), scalesT.end()); sh.insert(sh.end(), shiftsT.begin(), shiftsT.end()); }
  switch (kind) {
    case 0: { v1 = pick(sc, "scale"); Scale *p = new Scale("s"); s.reset(p); p->SetScaleFactor(v1); break; }
    case 1: { v1 = pick(sh, "shift"); Shift *p = new Shift("s"); s.reset(p); p->SetShift(v1); break; }
    case 2: { v1 = pick(as, "a"); v2 = pick(bs, "b"); ScaleFunction *p = new ScaleFunction("s"); s.reset(p); p->SetScaleFunction(linear, {"a", "b"}); p->SetParameters({{"a", v1}, {"b", v2}}); break; }
    case 3: { v1 = pick(VD{0, 0.3, 2}, "a"); v2 = pick(bs, "b"); ScaleFunction *p = new ScaleFunction("s"); s.reset(p); p->SetScaleFunction(cubic, {"b", "a"}); p->SetParameters({{"a", v1}, {"b", v2}}); break; }
    case 4: { v1 = pick(VD{0, 1}, "a"); v2 = pick(VD{0, 1, 0.5}, "b"); Shape *p = new Shape("s"); s.reset(p); p->SetShapeFunction(shapeFn, {"a", "b"}); p->SetParameters({{"a", v1}, {"b", v2}}); break; }
    case 5: { v1 = pick(sig, "sigma"); v2 = pick(means, "mean"); Convolution *p = new Convolution("s"); s.reset(p);
      VD m, w; for (size_t i = 0; i < trans.size(); i++) { m.push_back(v2 + 0.1 * i); w.push_back(v1 * (1 + i)); } Gaussian g(m, w, "g");
      if (flip("conditional kernel")) { JumpPDF j("j", &g); p->SetConditionalPDF(&j); } else p->SetFunction(&g); break; }
    case 6: { if (trans.size() > 2) prune(); v1 = pick(sig, "grad"); v2 = pick(VD{0, 0.3, -0.9}, "mean"); /* a width of zero just on a bin edge is not defined: avoided */ Convolution *p = new Convolution("s"); s.reset(p);
      VD m, w; for (size_t i = 0; i < trans.size(); i++) { m.push_back(v2); w.push_back(0.7); } Gaussian g(m, w, "g"); VaryingCDF vc("vc"); vc.SetKernel(&g); SquareRootScale q("q"); q.SetGradient(v1); vc.SetDependance("stddevs_0", &q); p->SetConditionalPDF(&vc); break; }
  }
  MC_OP("kind " << kind << " axes " << vstr(obs) << " transforms " << vstr(tobs) << " values " << v1 << "," << v2);
  if (flip("axes first")) { s->SetAxes(ax); s->SetDistributionObs(obs); s->SetTransformationObs(tobs); } else { s->SetTransformationObs(tobs); s->SetDistributionObs(obs); s->SetAxes(ax); }
  s->Construct();
  if (flip("had other values")) { ParameterDict p = s->GetParameters(), q = p; for (auto &x : q) x.second = 1.25 * x.second + 0.125; s->SetParameters(q); s->Construct(); s->SetParameters(p); s->Construct(); }
  const SparseMatrix &R = s->GetResponse();
  MC_CHECK(R.GetNRows() == N && R.GetNCols() == N, "response: shape", "");
  double tol = kind >= 5 ? 1e-7 : 1e-10;
  std::vector<VD> ref(N, VD(N, 0));
  for (size_t from = 0; from < N; from++) {
    std::vector<size_t> f = unpack(from, nb);
    for (size_t to = 0; to < N; to++) {
      std::vector<size_t> t = unpack(to, nb);
      bool other = false; for (size_t i = 0; i < d; i++) if (std::find(trans.begin(), trans.end(), (int)i) == trans.end() && f[i] != t[i]) other = true;
      double want = 0;
      if (!other) {
        if (kind <= 3) {
          const VD &e = axisPool()[lay[trans[0]]].second; size_t i = f[trans[0]], j = t[trans[0]];
          double lo = e[i], hi = e[i + 1];
          if (kind == 0) { lo *= v1; hi *= v1; } else if (kind == 1) { lo += v1; hi += v1; }
          else { double q = kind == 3 ? v1 * lo * lo * lo + lo + v2 : v1 * lo + v2, r = kind == 3 ? v1 * hi * hi * hi + hi + v2 : v1 * hi + v2; lo = std::min(q, r); hi = std::max(q, r); }
          want = overlap(lo, hi, e[j], e[j + 1]);
        } else if (kind == 4) {
          if (from == to) { VD c; for (int k : trans) { const VD &e = axisPool()[lay[k]].second; c.push_back(0.5 * (e[f[k]] + e[f[k] + 1])); } double q = v1, m = 1; for (double x : c) { q += m * x * x; m *= 3; } want = v2 * q; }
        } else {
          want = 1; VD c; for (int k : trans) { const VD &e = axisPool()[lay[k]].second; c.push_back(0.5 * (e[f[k]] + e[f[k] + 1])); }
          for (size_t i = 0; i < trans.size(); i++) {
            const VD &e = axisPool()[lay[trans[i]]].second; size_t j = t[trans[i]];
            double m = kind == 5 ? v2 + 0.1 * i : v2, w = kind == 5 ? v1 * (1 + i) : i == 0 ? v1 * std::sqrt(std::fabs(c[0])) : 0.7;
            want *= phi(e[j + 1] - c[i] - m, w) - phi(e[j] - c[i] - m, w);
          }
        }
      }
      ref[to][from] = want;
      double got = R.GetComponent(to, from);
      MC_CHECK(close(got, want, tol, tol), "response: element", "from bin " << from << " to bin " << to << " got " << got << " expected " << want);
    }
  }
  // application
  BinnedED in("in", ax); in.SetObservables(obs); VD x(N); for (size_t i = 0; i < N; i++) { x[i] = 1 + (i * i) % 7 + 0.25 * i; in.SetBinContent(i, x[i]); }
  VD y(N, 0); double sum = 0; for (size_t t = 0; t < N; t++) { for (size_t f = 0; f < N; f++) y[t] += ref[t][f] * x[f]; sum += y[t]; }
  double norm = -1; BinnedED out = (*s)(in, &norm);
  MC_CHECK(vclose(out.GetBinContents(), y, 1e-6, 1e-5) && close(norm, sum, 1e-6, 1e-5), "apply: contents", "got " << vstr(out.GetBinContents()) << " norm " << norm << " expected " << vstr(y));
  MC_CHECK(in.GetBinContents() == x, "apply: changed its input", "");
  MC_CHECK(out.GetObservables() == obs && out.GetAxes() == ax, "apply: result has other axes", "");
  if (sum > 1e-3) { BinnedED on = (*s)(in); VD z = y; for (double &q : z) q /= sum; MC_CHECK(vclose(on.GetBinContents(), z, 1e-6, 1e-5), "apply: normalised contents", ""); }
  state(Hash().b(kind).vd(y).h);
}

MC_SCENARIO_SPLIT(refusals, 1) {
  int kind = choose(6, "kind"), what = choose(8, "what");
  std::unique_ptr<Systematic> s; std::string par;
  Gaussian g(0, 1, "g");
  switch (kind) {
    case 0: s.reset(new Scale("s")); par = "scaleFactor"; break;
    case 1: s.reset(new Shift("s")); par = "shift"; break;
    case 2: s.reset(new ScaleFunction("s")); if (what != 4) ((ScaleFunction *)s.get())->SetScaleFunction(linear, {"a", "b"}); par = "a"; break;
    case 3: s.reset(new Shape("s")); if (what != 4) ((Shape *)s.get())->SetShapeFunction(shapeFn, {"a", "b"}); par = "a"; break;
    case 4: s.reset(new Convolution("s")); if (what != 4) ((Convolution *)s.get())->SetFunction(&g); par = "stddevs_0"; break;
    case 5: s.reset(new Renorm("s")); break;
  }
  AxisCollection ax; ax.AddAxis(mkAxis(0)); ax.AddAxis(mkAxis(1));
  MC_OP("kind " << kind << " lacks " << what);
  auto full = [&] { s->SetAxes(ax); s->SetDistributionObs(VN{"x", "y"}); s->SetTransformationObs(VN{"y"}); };
  switch (what) {
    case 0: s->SetDistributionObs(VN{"x", "y"}); s->SetTransformationObs(VN{"y"}); MC_CHECK(throws([&] { s->Construct(); }), "construct: accepted without axes", "kind " << kind); break;
    case 1: if (kind == 5) prune(); s->SetAxes(ax); s->SetTransformationObs(VN{"y"}); MC_CHECK(throws([&] { s->Construct(); }), "construct: accepted without distribution observables", "kind " << kind); break;
    case 2: if (kind == 5) prune(); s->SetAxes(ax); s->SetDistributionObs(VN{"x", "y"}); MC_CHECK(throws([&] { s->Construct(); }), "construct: accepted without observables to transform", "kind " << kind); break;
    case 3: if (kind == 5) prune(); full(); s->SetTransformationObs(VN{"q"}); MC_CHECK(throws([&] { s->Construct(); }), "construct: accepted an unknown observable", "kind " << kind); break;
    case 4: if (kind < 2 || kind == 5) prune(); full(); MC_CHECK(throws([&] { s->Construct(); }), "construct: accepted without a function", "kind " << kind);
      if (kind == 4) MC_CHECK(throws([&] { s->SetParameter("stddevs_0", 1); }) && throws([&] { s->GetParameter("stddevs_0"); }) && throws([&] { s->GetParameters(); }) && throws([&] { s->GetParameterNames(); }) && throws([&] { s->SetParameters({{"stddevs_0", 1}, {"means_0", 1}}); }) && throws([&] { s->RenameParameter("stddevs_0", "w"); }) && throws([&] { s->GetParameterCount(); }), "parameters: answered without a function", ""); break;
    case 5: { BinnedED in("in", ax); MC_CHECK(throws([&] { (*s)(in); }), "apply: accepted before it is set up", "kind " << kind); break; }
    case 6: { full(); if (kind == 5) ((Renorm *)s.get())->SetScaleFactor(2); s->Construct(); AxisCollection small; small.AddAxis(mkAxis(1)); BinnedED in("in", small); double n; MC_CHECK(throws([&] { (*s)(in, &n); }), "apply: accepted a distribution of another size", "kind " << kind);
      if (kind == 5) for (size_t i = 0; i < 9; i++) for (size_t j = 0; j < 9; j++) MC_CHECK(s->GetResponse().GetComponent(i, j) == (i == j ? 2 : 0), "response: renormalisation", ""); break; }
    case 7: { full();
      if (kind == 0) for (double v : {0., -1., -1e-9, std::nan(""), HUGE_VAL}) { s->SetParameter(par, v); MC_CHECK(throws([&] { s->Construct(); }), "construct: unphysical value accepted", "scale " << v); }
      if (kind == 3) { s->SetParameter("a", 1); s->SetParameter("b", -1); MC_CHECK(throws([&] { s->Construct(); }), "construct: negative shape accepted", ""); }
      if (kind == 1) { s->SetParameter(par, std::nan("")); MC_CHECK(throws([&] { s->Construct(); }), "construct: unphysical value accepted", "shift that is not a number"); s->SetParameter(par, 0); }
      if (kind == 2 || kind == 3) for (auto &n : s->GetParameterNames()) { double was = s->GetParameter(n); s->SetParameter(n, std::nan("")); MC_CHECK(throws([&] { s->Construct(); }), "construct: a function that is not a number accepted", "kind " << kind << " " << n); s->SetParameter(n, was); }
      if (kind == 4) MC_CHECK(throws([&] { s->SetParameter(par, std::nan("")); s->Construct(); }), "construct: unphysical value accepted", "width that is not a number");
      if (kind == 4) MC_CHECK(throws([&] { s->SetParameter(par, -1); s->Construct(); }), "construct: unphysical value accepted", "width");
      if (kind < 3) { s->SetTransformationObs(VN{"x", "y"}); if (kind == 0) s->SetParameter(par, 1); MC_CHECK(throws([&] { s->Construct(); }), "construct: two observables accepted", "kind " << kind); }
      break; }
  }
}

// long axes, and many axes
MC_SCENARIO_SPLIT(many, 2) {
  static const std::vector<std::vector<int>> SZ = {{40}, {100}, {12, 11}, {5, 6, 7}, {3, 2, 3, 2, 3}, {2, 2, 2, 2, 2, 2, 2}, {17, 1, 9}};
  std::vector<int> sz = SZ[choose((int)SZ.size(), "axes")]; size_t d = sz.size(); int kind = choose(5, "kind"); bool var = flip("variable"); std::vector<int> trans = {choose((int)d, "transformed")}; if (kind > 2 && d > 1) trans.push_back((trans[0] + d - 1) % d);
  AxisCollection ax; VN obs, tobs; std::vector<size_t> nb; std::vector<VD> e(d); for (size_t i = 0; i < d; i++) { obs.push_back("o" + std::to_string(12 - (int)i)); double x = -1 + (double)i; e[i].push_back(x); for (int k = 0; k < sz[i]; k++) { x += var ? (k % 3 == 1 ? 1.5 : 0.5) : 0.5; e[i].push_back(x); } if (var) ax.AddAxis(BinAxis(obs[i], VD(e[i].begin(), e[i].end() - 1), VD(e[i].begin() + 1, e[i].end()))); else ax.AddAxis(BinAxis(obs[i], e[i][0], e[i].back(), sz[i])); nb.push_back(sz[i]); } for (int t : trans) tobs.push_back(obs[t]); size_t N = ax.GetNBins();
  double v1, v2 = 0; std::unique_ptr<Systematic> s; switch (kind) { case 0: { v1 = pick(VD{0.83, 1.17}, "scale"); auto *p = new Scale("s"); p->SetScaleFactor(v1); s.reset(p); break; } case 1: { v1 = pick(VD{0.7, -3.3}, "shift"); auto *p = new Shift("s"); p->SetShift(v1); s.reset(p); break; } case 2: { v1 = pick(VD{1.25, -0.5}, "a"); v2 = 0.3; auto *p = new ScaleFunction("s"); p->SetScaleFunction(linear, {"a", "b"}); p->SetParameters({{"a", v1}, {"b", v2}}); s.reset(p); break; } case 3: { v1 = 0.5; v2 = 1.25; auto *p = new Shape("s"); p->SetShapeFunction(shapeFn, {"a", "b"}); p->SetParameters({{"a", v1}, {"b", v2}}); s.reset(p); break; } default: { v1 = pick(VD{0.2, 1.5}, "sigma"); v2 = 0.3; auto *p = new Convolution("s"); VD m, w; for (size_t i = 0; i < trans.size(); i++) { m.push_back(v2 + 0.1 * i); w.push_back(v1 * (1 + i)); } Gaussian g(m, w, "g"); p->SetFunction(&g); s.reset(p); } }
  s->SetAxes(ax); s->SetDistributionObs(obs); s->SetTransformationObs(tobs); s->Construct(); const SparseMatrix &R = s->GetResponse(); MC_CHECK(R.GetNRows() == N && R.GetNCols() == N, "response: shape (many)", ""); double tol = kind == 4 ? 1e-7 : 1e-9; std::vector<VD> ref(N, VD(N, 0)); double worst = 0; std::string where;
  for (size_t from = 0; from < N; from++) { std::vector<size_t> f = unpack(from, nb); VD c; for (int k : trans) c.push_back(0.5 * (e[k][f[k]] + e[k][f[k] + 1])); for (size_t to = 0; to < N; to++) { std::vector<size_t> t = unpack(to, nb); bool other = false; for (size_t i = 0; i < d; i++) other |= std::find(trans.begin(), trans.end(), (int)i) == trans.end() && f[i] != t[i]; double want = 0;
    if (!other) { if (kind < 3) { const VD &x = e[trans[0]]; size_t i = f[trans[0]], j = t[trans[0]]; double q = kind == 1 ? x[i] + v1 : v1 * x[i] + v2, r = kind == 1 ? x[i + 1] + v1 : v1 * x[i + 1] + v2; want = overlap(std::min(q, r), std::max(q, r), x[j], x[j + 1]); } else if (kind == 3) { if (from == to) { double q = v1, m = 1; for (double x : c) { q += m * x * x; m *= 3; } want = v2 * q; } } else { want = 1; for (size_t i = 0; i < trans.size(); i++) { const VD &x = e[trans[i]]; size_t j = t[trans[i]]; double m = v2 + 0.1 * i, w = v1 * (1 + i); want *= phi(x[j + 1] - c[i] - m, w) - phi(x[j] - c[i] - m, w); } } }
    ref[to][from] = want; double off = std::fabs(R.GetComponent(to, from) - want); if (!(off <= worst)) { worst = off; where = "from " + std::to_string(from) + " to " + std::to_string(to); } } }
  MC_CHECK(worst <= tol * 10, "response: element (many)", where << " off by " << worst); BinnedED in("in", ax); in.SetObservables(obs); VD x(N), y(N, 0); for (size_t i = 0; i < N; i++) { x[i] = 1 + (i * 37) % 11; in.SetBinContent(i, x[i]); } double sum = 0; for (size_t t = 0; t < N; t++) { for (size_t f = 0; f < N; f++) y[t] += ref[t][f] * x[f]; sum += y[t]; } double norm = -1; BinnedED out = (*s)(in, &norm); MC_CHECK(vclose(out.GetBinContents(), y, 1e-6, 1e-4) && close(norm, sum, 1e-6, 1e-4), "apply: contents (many)", norm << " expected " << sum); state(Hash().b(kind).b(N).vd(y).h);
}
