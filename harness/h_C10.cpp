// C10 a reconfigured systematic behaves as one freshly built that way
#include "mc.h"
#include <Scale.h>
#include <Shift.h>
#include <ScaleFunction.h>
#include <Shape.h>
#include <Convolution.h>
#include <Renorm.h>
#include <Gaussian.h>
#include <VaryingCDF.h>
#include <SquareRootScale.h>
#include <memory>
using namespace mc;
typedef std::vector<double> VD;
typedef std::vector<std::string> VN;

static double f1(const ParameterDict &p, const double &x) { return x * (1 + p.at("a")) + p.at("b"); }
static double f2(const ParameterDict &p, const double &x) { return x + p.at("a") * x * x - p.at("b"); }
static double s1(const ParameterDict &p, const VD &v) { double s = 0, m = 1; for (double x : v) { s += m * x * x; m *= 3; } return p.at("a") * s + p.at("b"); }
static double s2(const ParameterDict &p, const VD &v) { double s = 1; for (double x : v) s += std::fabs(x); return p.at("a") + p.at("b") * s; }

static const std::vector<VN> &layouts() { static const std::vector<VN> l = {{"x"}, {"x", "y"}, {"y", "x"}}; return l; }
static BinAxis axis(const std::string &n, int coarse) {
  if (n == "x") return coarse ? BinAxis("x", VD{0, 1}, VD{1, 4}) : BinAxis("x", 0, 3, 3);
  return coarse ? BinAxis("y", -1, 2, 3) : BinAxis("y", VD{-1, 0.5}, VD{0.5, 2});
}
struct Conf { int lay = -1, coarse = 0, dist = -1, trans = -1, func = -1; double p1 = 0, p2 = 0; };
static const std::vector<VN> &transes() { static const std::vector<VN> t = {{"x"}, {"y"}, {"y", "x"}, {"x", "y"}}; return t; }
static AxisCollection axes(const Conf &c) { AxisCollection a; for (auto &n : layouts()[c.lay]) a.AddAxis(axis(n, c.coarse)); return a; }

enum { SCALE, SHIFT, FUNC, SHAPE, CONV, VARY, RENORM, KINDS };
static bool multi(int k) { return k == SHAPE || k == CONV; }
static std::unique_ptr<Systematic> make(int k) {
  switch (k) {
    case SCALE: return std::unique_ptr<Systematic>(new Scale("s"));
    case SHIFT: return std::unique_ptr<Systematic>(new Shift("s"));
    case FUNC: return std::unique_ptr<Systematic>(new ScaleFunction("s"));
    case SHAPE: return std::unique_ptr<Systematic>(new Shape("s"));
    case RENORM: return std::unique_ptr<Systematic>(new Renorm("s"));
    default: return std::unique_ptr<Systematic>(new Convolution("s"));
  }
}
static void setFunc(int k, Systematic *s, int f, int ntrans) {
  switch (k) {
    case FUNC: ((ScaleFunction *)s)->SetScaleFunction(f ? f2 : f1, {"a", "b"}); break;
    case SHAPE: ((Shape *)s)->SetShapeFunction(f ? s2 : s1, {"a", "b"}); break;
    case CONV: { Gaussian g(VD(ntrans, 0.2), VD(ntrans, f ? 0.9 : 0.5), "g"); ((Convolution *)s)->SetFunction(&g); break; }
    case VARY: { Gaussian g(0.1 + f, 0.6, "g"); VaryingCDF v("v"); v.SetKernel(&g); SquareRootScale q("q"); v.SetDependance("stddevs_0", &q); ((Convolution *)s)->SetConditionalPDF(&v); break; }
  }
}
static bool hasFunc(int k) { return k == FUNC || k == SHAPE || k == CONV || k == VARY; }
static void setPar(int k, Systematic *s, int which, double v) {
  switch (k) {
    case SCALE: if (which) s->SetParameters({{"scaleFactor", v}, {"other", 7}}); else ((Scale *)s)->SetScaleFactor(v); break;
    case SHIFT: if (which) s->SetParameter("shift", v); else ((Shift *)s)->SetShift(v); break;
    case FUNC: case SHAPE: s->SetParameter(which ? "b" : "a", v); break;
    case CONV: s->SetParameter(which ? "stddevs_0" : "means_0", v); break;
    case VARY: if (which) s->SetParameters({{"grad", v}}); else s->SetParameter("grad", v); break;
    case RENORM: ((Renorm *)s)->SetScaleFactor(v); break;
  }
}
static void apply(int k, Systematic *s, const Conf &c, const std::vector<std::pair<int, double>> &pars) { for (auto &p : pars) setPar(k, s, p.first, p.second); (void)c; }

// the matrix a fresh systematic has with this configuration only
static bool dense(const SparseMatrix &m, std::vector<double> &r) { r.clear(); for (size_t i = 0; i < m.GetNRows(); i++) for (size_t j = 0; j < m.GetNCols(); j++) r.push_back(m.GetComponent(i, j)); return true; }
static int ntrans(const Conf &c) { return c.trans < 0 ? 1 : (int)transes()[c.trans].size(); }

struct Model { Conf c; bool has[2] = {false, false}; double v[2] = {0, 0}; int funcDim = 0; };
static std::vector<double> freshResponse(int k, const Model &m) {
  auto s = make(k);
  if (hasFunc(k)) setFunc(k, s.get(), m.c.func, m.funcDim);
  for (int w = 0; w < 2; w++) if (m.has[w]) setPar(k, s.get(), w, m.v[w]);
  if (m.c.trans >= 0) s->SetTransformationObs(transes()[m.c.trans]); if (m.c.dist >= 0) s->SetDistributionObs(layouts()[m.c.dist]); s->SetAxes(axes(m.c));
  s->Construct();
  std::vector<double> r; dense(s->GetResponse(), r); return r;
}
// can it be constructed: 1 yes, 0 must be refused, -1 contradictory settings (not judged)
static int ready(int k, const Model &m) {
  const Conf &c = m.c;
  if (k == RENORM) return c.lay >= 0;
  if (c.lay < 0 || c.trans < 0 || c.dist < 0 || (hasFunc(k) && c.func < 0)) return 0;
  if (layouts()[c.dist] != layouts()[c.lay]) return -1;
  if ((k == CONV || k == VARY) && m.funcDim != ntrans(c)) return -1;
  for (auto &t : transes()[c.trans]) { bool in = false; for (auto &d : layouts()[c.dist]) in = in || t == d; if (!in) return 0; }
  if (ntrans(c) > (int)layouts()[c.dist].size()) return 0;
  if (!multi(k) && ntrans(c) > 1) return k == VARY ? -1 : 0;
  return 1;
}

static void history(int kind, bool configured, int depth) {
  Model m; auto s = make(kind);
  std::vector<double> resp; bool built = false;
  auto construct = [&] {
    int r = ready(kind, m);
    if (r < 0) return;
    MC_OP("construct");
    if (r == 0) {
      if (fresh()) { MC_CHECK(throws([&] { s->Construct(); }), "construct: incomplete configuration accepted", "kind " << kind); } else throws([&] { s->Construct(); });
      built = false; return;
    }
    if (kind == SCALE && !m.has[0] && !m.has[1]) { m.has[0] = true; m.v[0] = 1.25; setPar(kind, s.get(), 0, 1.25); }
    s->Construct();
    built = true;
    if (!fresh()) { dense(s->GetResponse(), resp); return; }
    dense(s->GetResponse(), resp);
    std::vector<double> want = freshResponse(kind, m);
    MC_CHECK(vclose(resp, want, 1e-12, 1e-12), "construct: differs from a fresh systematic", "kind " << kind << " got " << vstr(resp) << " expected " << vstr(want));
  };
  auto setAxes = [&](int l, int c) { MC_OP("axes " << vstr(layouts()[l]) << " binning " << c); m.c.lay = l; m.c.coarse = c; s->SetAxes(axes(m.c)); built = false; };
  auto setTrans = [&](int t) { MC_OP("transform " << vstr(transes()[t])); m.c.trans = t; s->SetTransformationObs(transes()[t]); };
  auto setDist = [&](int t) { MC_OP("distribution " << vstr(layouts()[t])); m.c.dist = t; s->SetDistributionObs(layouts()[t]); };
  auto func = [&](int f, int dim) { MC_OP("function " << f << " of " << dim); m.c.func = f; m.funcDim = dim; m.has[0] = m.has[1] = false; setFunc(kind, s.get(), f, dim); };
  // one of them without effect, where there is such a value
  const VD vals = kind == SCALE ? VD{0.5, 1} : kind == SHIFT || kind == VARY ? VD{0, 1.5} : kind == RENORM ? VD{1, 1.5} : VD{0.5, 1.5};
  if (configured) {
    if (hasFunc(kind)) func(0, 1);
    int l = choose(3, "start layout"); setAxes(l, 0); setDist(l); setTrans(0);
    if (flip("constructed at start")) construct();
  }
  for (int i = 0; i < depth; i++) {
    std::vector<int> ops = {0, 1, 2, 3, 4, 6};
    if (hasFunc(kind)) ops.push_back(5);
    if (kind != SCALE) ops.push_back(7);
    int o = ops[choose((int)ops.size(), "op")];
    switch (o) {
      case 0: construct(); break;
      case 1: { int l = choose(3, "axes"); int c = choose(2, "binning"); setAxes(l, c); if (flip("and the matching observables")) setDist(l); break; }
      case 2: setDist(choose(3, "distribution")); break;
      case 3: setTrans(choose(multi(kind) ? 4 : 2, "transform")); break;
      case 4: { int w = choose(kind == RENORM ? 1 : 2, "which"); double v = pick(vals, "value"); if (hasFunc(kind) && m.c.func < 0) break; MC_OP("parameter " << w << " = " << v);
        setPar(kind, s.get(), w, v);
        if (kind == SCALE || kind == SHIFT || kind == VARY) { m.has[0] = true; m.v[0] = v; m.has[1] = false; } else { m.has[w] = true; m.v[w] = v; } break; }
      case 5: { int f = choose(2, "function"); int dim = kind == CONV ? ntrans(m.c) : 1; func(f, dim); break; }
      case 6: {
        if (!built) { if (m.c.lay < 0) { BinnedED d("d", [] { AxisCollection a; a.AddAxis(axis("x", 0)); return a; }()); d.SetObservables(VN{"x"}); MC_OP("apply unset"); if (fresh()) MC_CHECK(throws([&] { double n; (*s)(d, &n); }), "apply: accepted before it has a response", ""); } break; }
        MC_OP("apply");
        AxisCollection a = axes(m.c); BinnedED in("in", a); in.SetObservables(layouts()[m.c.lay]); VD x; for (size_t b = 0; b < a.GetNBins(); b++) { x.push_back(1 + 0.5 * b * b); in.SetBinContent(b, x.back()); }
        double n = -1; BinnedED out = (*s)(in, &n);
        if (!fresh()) break;
        size_t N = a.GetNBins(); VD y(N, 0); for (size_t r = 0; r < N; r++) for (size_t q = 0; q < N; q++) y[r] += resp[r * N + q] * x[q];
        MC_CHECK(vclose(out.GetBinContents(), y, 1e-9, 1e-9), "apply: contents", "got " << vstr(out.GetBinContents()) << " expected " << vstr(y));
        MC_CHECK(in.GetBinContents() == x, "apply: changed its input", "");
        std::vector<double> after; dense(s->GetResponse(), after); MC_CHECK(after == resp, "apply: changed the systematic", "");
        break; }
      case 7: {  // the history goes on with a copy, the original is gone
        MC_OP("copy");
        std::unique_ptr<Systematic> c;
        switch (kind) { case SHIFT: c.reset(new Shift(*(Shift *)s.get())); break; case FUNC: c.reset(new ScaleFunction(*(ScaleFunction *)s.get())); break; case SHAPE: c.reset(new Shape(*(Shape *)s.get())); break; case RENORM: c.reset(new Renorm(*(Renorm *)s.get())); break;
          default: if (flip("by assignment")) { Convolution *q = new Convolution("other"); c.reset(q); Gaussian g(0, 2, "z"); q->SetFunction(&g); *q = *(Convolution *)s.get(); } else c.reset(new Convolution(*(Convolution *)s.get())); break; }
        s = std::move(c); break; }
    }
    state(Hash().b(kind).b(m.c.lay).b(m.c.coarse).b(m.c.dist).b(m.c.trans).b(m.c.func).d(m.v[0]).d(m.v[1]).b(built).vd(resp).h);
  }
  construct();
}

MC_SCENARIO_SPLIT(reconfigured, 5) { int k = choose(KINDS, "kind"); history(k, true, tier(3, 4)); }
MC_SCENARIO_SPLIT(from_nothing, 5) { int k = choose(KINDS, "kind"); history(k, false, tier(4, 5)); }
