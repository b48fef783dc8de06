// C13 total expected distribution: every pdf enters with the right normalisation
#include "mc.h"
#include <BinnedEDManager.h>
#include <BinnedEDShrinker.h>
#include <SystematicManager.h>
#include <Scale.h>
#include <Shape.h>
#include <Event.h>
#include <memory>
#include <algorithm>
#include "expect.h"
struct Run {
  BinnedEDManager man; Ref m; Config c; SystematicManager sys, none; Scale scale; Shape shape; BinnedEDShrinker shr; double sf = 0.75, k = 0.5; std::vector<bool> inG; bool evaluated = false;
  Run() : scale("scale"), shape("shape") {}
  void setup(const Config &cc) {
    c = cc;
    if (c.scale) { scale.SetAxes(axes1()); scale.SetDistributionObs(VN{"x"}); scale.SetTransformationObs(VN{"x"}); scale.SetParameter("scaleFactor", sf); sys.Add(&scale); }
    if (c.shape) { shape.SetShapeFunction(shapeFn, {"k"}); shape.SetAxes(axes1()); shape.SetDistributionObs(VN{"x"}); shape.SetTransformationObs(VN{"x"}); shape.SetParameter("k", k); sys.Add(&shape, "g"); }
    if (c.buffered) { shr.SetUsingOverflows(c.over); shr.SetBuffer("x", c.lo, c.hi); shr.SetBinMap(pdf(0)); }
  }
  void add(int j, NormFittingStatus mode, bool group) {
    MC_OP("add pdf " << pdf(j).GetName() << " mode " << mode << (group ? " with group" : ""));
    man.AddPdf(pdf(j), mode); m.add(j, mode); inG.push_back(group && c.shape); if (c.scale || c.shape) sys.AddDist(pdf(j), group && c.shape ? "g" : ""); evaluated = false;
  }
  void params() {
    if (!fresh()) return;
    ParameterDict d = m.dict(); std::set<std::string> names; for (auto &x : d) names.insert(x.first);
    MC_CHECK(mclose(man.GetParameters(), d), "parameters: values", "got " << mstr(man.GetParameters()) << " expected " << mstr(d));
    MC_CHECK(man.GetParameterNames() == names && man.GetParameterCount() == d.size() && man.GetNPdfs() == m.idx.size() && man.GetNDims() == 1, "parameters: names or counts", "");
    for (size_t i = 0; i < m.idx.size(); i++) MC_CHECK(man.GetOriginalPdf(i).GetBinContents() == contents(m.idx[i]) && man.GetOriginalPdf(i).GetName() == pdf(m.idx[i]).GetName(), "originals: changed", "");
  }
  void check() {
    if (!fresh()) return;
    VD e = m.expected();
    for (size_t b = 0; b < e.size(); b++) { double g = man.BinProbability(b); MC_CHECK(close(g, e[b], 1e-9, 1e-12), "expectation: bin", "bin " << b << " got " << g << " expected " << e[b]); }
    // an event's probability under each pdf is relative to the pdf's integral
    VD pe(e.size(), 0); for (size_t i = 0; i < m.w.size(); i++) { double s = sum(m.w[i]); if (s == 0 || (m.mode[i] == FALSE && !close(s, 1, 1e-12))) return; for (size_t b = 0; b < e.size(); b++) pe[b] += (m.mode[i] == FALSE ? 1 : m.n[i]) * m.w[i][b] / s; }
    VN on = {"x"}; size_t lo = e.size() == NB ? 0 : c.lo;
    for (size_t b = 0; b < e.size(); b++) { Event ev(VD{lo + b + 0.25}); ev.SetObservableNames(&on); double g = man.Probability(ev); MC_CHECK(close(g, pe[b], 1e-9, 1e-12), "expectation: event", "bin " << b << " got " << g << " expected " << pe[b]); }
  }
  void norms() { if (fresh()) { MC_CHECK(vclose(man.GetNormalisations(), m.reported, 1e-9, 1e-12), "normalisations: reported", "got " << vstr(man.GetNormalisations()) << " expected " << vstr(m.reported)); state(Hash().vd(m.reported).vd(m.expected()).h); } }
  void apply() {
    MC_OP("apply systematics"); bool use = c.scale || c.shape;
    if (use) sys.Construct();
    man.ApplySystematics(use ? sys : none); m.distort(c, sf, k, inG); evaluated = true; norms(); check();
  }
  void shrink() { MC_OP("shrink"); man.ApplyShrink(shr); m.shrink(c); norms(); check(); }
  void evaluate() { apply(); if (c.buffered) shrink(); else { man.ApplyShrink(shr); norms(); } }
  void setAll(double base, bool viaNorms) {
    VD v; for (size_t i = 0; i < m.idx.size(); i++) v.push_back(base + 0.5 * i + (base > 2 ? 10 * (i % 2) : 0));
    MC_OP((viaNorms ? "set normalisations " : "set parameters ") << vstr(v));
    for (size_t i = 0; i < v.size(); i++) if (m.mode[i] != FALSE) m.n[i] = v[i];
    if (viaNorms) man.SetNormalisations(v); else { ParameterDict d = m.dict(); d["unrelated"] = 7; man.SetParameters(d); }
  }
  void setOne(size_t i, double v) { MC_OP("set parameter of " << i << " " << v);
    std::string nm = pdf(m.idx[i]).GetName();
    if (m.mode[i] == FALSE) { MC_CHECK(throws([&] { man.SetParameter(nm, v); }) && throws([&] { man.GetParameter(nm); }), "parameters: pdf without fitted normalisation has one", ""); return; }
    man.SetParameter(nm, v); m.n[i] = v; MC_CHECK(man.GetParameter(nm) == v, "parameters: value", ""); }
  void setSys(double s, double kk) { MC_OP("systematics " << s << " " << kk); sf = s; k = kk; if (c.scale) scale.SetParameter("scaleFactor", s); if (c.shape) shape.SetParameter("k", kk); }
};
static const std::vector<NormFittingStatus> modes = {DIRECT, INDIRECT, FALSE};
static Config buffers(int b) { Config c; if (b) { c.buffered = true; static const unsigned l[] = {0, 1, 0, 2, 1, 0}, h[] = {0, 0, 2, 1, 1, 0}; c.lo = l[b]; c.hi = h[b]; } return c; }

// every mixture of modes, kind of systematic and buffers, evaluated at several points in every order
MC_SCENARIO_SPLIT(mixtures, 4) {
  Run r; int np = 1 + choose(3, "pdfs"); Config c = buffers(choose(tier(4, 6), "buffers")); if (c.buffered) c.over = flip("overflow");
  int s = choose(4, "systematics"); c.scale = s & 1; c.shape = s & 2; r.setup(c);
  MC_OP("buffers " << c.lo << "," << c.hi << " overflow " << c.over << " systematics " << s);
  for (int i = 0; i < np; i++) r.add((i + 1) % 4, modes[choose(3, "mode")], i != 1);
  r.params();
  int n = tier(3, 5);
  for (int e = 0; e < n; e++) {
    int p = choose(3, "point"); if (p == 2) r.setSys(r.sf == 0.75 ? 1.25 : 0.75, r.k == 0.5 ? 0.125 : 0.5); else r.setAll(p == 0 ? 1 : 3, false);
    r.params(); r.evaluate(); r.params();
  }
  r.setAll(2, true); r.params(); r.evaluate();
}

// histories of updates, partial evaluations, additions and copies
MC_SCENARIO_SPLIT(histories, 5) {
  std::unique_ptr<Run> p(new Run); Run &r = *p; static const std::vector<std::vector<int>> mixes = {{1, 0}, {0, 0}, {1, 2}, {2, 1}, {0, 1}};
  Config c = buffers(2); int s = choose(2, "systematics"); c.scale = s == 0; c.shape = s == 1; r.setup(c);
  auto &mx = mixes[choose((int)mixes.size(), "modes")];
  for (size_t i = 0; i < mx.size(); i++) r.add(i, modes[mx[i]], i == 0);
  bool shrunk = false, distorted = true, settled = false; int n = tier(4, 5);
  for (int k = 0; k < n; k++) {
    switch (choose(8, "op")) {
      case 0: r.setAll(1 + k, false); settled = false; break;
      case 1: r.setOne(choose(2, "pdf"), 0.5 + k); settled = false; break;
      case 2: r.setAll(3, true); settled = false; break;
      case 3: r.setSys(r.sf == 0.75 ? 1.25 : 0.75, r.k == 0.5 ? 0.125 : 0.5); break;
      case 4: r.apply(); shrunk = false; distorted = true; settled = true; break;
      case 5: if (shrunk) { MC_OP("shrink again"); r.man.ApplyShrink(r.shr); r.check(); } else { r.shrink(); shrunk = true; settled = true; } break;
      case 6: { if (r.m.idx.size() > 2 || shrunk) prune(); r.add(2, modes[choose(3, "mode")], false); settled = false; break; }
      case 7: { MC_OP("copy, change the copy"); BinnedEDManager q(r.man); ParameterDict d = q.GetParameters(); MC_CHECK(mclose(d, r.m.dict()), "copy: parameters", "got " << mstr(d)); for (auto &x : d) x.second += 5; q.SetParameters(d);
        if (flip("keep the copy instead")) { BinnedEDManager t; t = r.man; r.man = t; } break; }
    }
    (void)distorted;
    r.params(); r.check();
  }
  (void)settled;
  r.evaluate(); r.params();
}

// pdfs with more observables than the data are projected onto those of the data
MC_SCENARIO(projections) {
  AxisCollection c2; bool swap = flip("y first"); BinAxis ax("x", 0, 3, 3), ay("y", 0, 2, 2);
  if (swap) { c2.AddAxis(ay); c2.AddAxis(ax); } else { c2.AddAxis(ax); c2.AddAxis(ay); }
  VN obs = swap ? VN{"y", "x"} : VN{"x", "y"}; VN keep = pick(std::vector<VN>{{"x"}, {"y"}, {"x", "y"}, {"y", "x"}}, "data observables");
  BinnedEDManager man; int np = 1 + choose(3, "pdfs"); std::vector<NormFittingStatus> md; std::vector<std::vector<VD>> a; VD n;
  for (int i = 0; i < np; i++) {
    md.push_back(modes[choose(3, "mode")]); BinnedED d(std::string(1, "bca"[i]), c2); d.SetObservables(obs); std::vector<VD> t(3, VD(2));
    for (int x = 0; x < 3; x++) for (int y = 0; y < 2; y++) { t[x][y] = 1 + x * (i + 1) + 4 * y; d.SetBinContent(swap ? y * 3 + x : x * 2 + y, t[x][y]); }
    if (flip("given in the observables of the data")) d = d.Marginalise(keep);   // each pdf may come with its own observables
    a.push_back(t); man.AddPdf(d, md.back()); n.push_back(i + 1.5);
  }
  man.SetNormalisations(n); BinnedEDShrinker shr; bool shrink = flip("shrink");
  for (int rep = 0; rep < 2 + choose(2, "repeat"); rep++) {
    SystematicManager s; man.ApplySystematics(s); man.AssertDimensions(keep);
    bool hx = std::find(keep.begin(), keep.end(), "x") != keep.end(), hy = std::find(keep.begin(), keep.end(), "y") != keep.end();
    int nx = hx ? 3 : 1, ny = hy ? 2 : 1; bool doShrink = shrink && hx; int lo = doShrink ? 1 : 0;
    if (doShrink) { AxisCollection ck; for (auto &o : keep) ck.AddAxis(o == "x" ? ax : ay); BinnedED like("d", ck); like.SetObservables(keep); shr.SetBuffer("x", 1, 0); shr.SetBinMap(like); man.ApplyShrink(shr); }
    VD e(nx * ny - lo * ny, 0);
    for (int i = 0; i < np; i++) { double tot = 0; for (int x = 0; x < 3; x++) for (int y = 0; y < 2; y++) if (x >= lo || !hx) tot += a[i][x][y];
      for (int x = 0; x < 3; x++) for (int y = 0; y < 2; y++) { if (hx && x < lo) continue; int ix = hx ? x - lo : 0, iy = hy ? y : 0; int b = keep[0] == "x" ? ix * ny + iy : iy * (nx - lo) + ix; e[b] += (md[i] == FALSE ? 1 : n[i]) * a[i][x][y] / (doShrink && md[i] == DIRECT ? tot : 1); } }
    MC_OP("project onto " << vstr(keep) << " shrink " << doShrink);
    for (size_t b = 0; b < e.size(); b++) MC_CHECK(close(man.BinProbability(b), e[b], 1e-9), "projection: expectation", "bin " << b << " got " << man.BinProbability(b) << " expected " << e[b]);
    MC_CHECK(throws([&] { man.BinProbability(e.size()); }), "projection: bin past the end answered", "");
    state(Hash().vd(e).h);
  }
}

MC_SCENARIO(refusals) {
  BinnedEDManager man; std::vector<NormFittingStatus> md; int np = 1 + choose(3, "pdfs");
  for (int i = 0; i < np; i++) { md.push_back(modes[choose(3, "mode")]); }
  if (flip("at once")) { std::vector<BinnedED> v; for (int i = 0; i < np; i++) v.push_back(pdf(i)); std::vector<NormFittingStatus> bad = md; bad.push_back(DIRECT); MC_CHECK(throws([&] { BinnedEDManager q; q.AddPdfs(v, &bad); }), "refusal: number of modes", ""); man.AddPdfs(v, &md); }
  else for (int i = 0; i < np; i++) man.AddPdf(pdf(i), md[i]);
  MC_OP("added " << np);
  VD n; for (int i = 0; i < np; i++) n.push_back(i + 2); man.SetNormalisations(n);
  ParameterDict before = man.GetParameters(); size_t k = 0; for (auto m : md) k += m != FALSE; MC_CHECK(before.size() == k && man.GetParameterCount() == k, "parameters: number", "");
  VD longer = n, shorter = n; longer.push_back(1); shorter.pop_back();
  MC_CHECK(throws([&] { man.SetNormalisations(longer); }) && throws([&] { man.SetNormalisations(shorter); }), "refusal: number of normalisations", "");
  for (int i = 0; i < np; i++) MC_CHECK(throws([&] { man.AddPdf(pdf(i), DIRECT); }), "refusal: a name twice", "");
  MC_CHECK(throws([&] { man.SetParameter("zz", 1); }) && throws([&] { man.GetParameter("zz"); }) && throws([&] { man.RenameParameter("zz", "yy"); }), "refusal: unknown parameter", "");
  if (!before.empty()) { ParameterDict d = before; d.erase(d.begin()); MC_CHECK(throws([&] { man.SetParameters(d); }), "refusal: incomplete set", "");
    man.SetParameters(before); man.RenameParameter(before.begin()->first, "new"); ParameterDict w = before; double v = w.begin()->second; w.erase(w.begin()); w["new"] = v; MC_CHECK(mclose(man.GetParameters(), w), "rename: values", ""); man.SetParameter("new", 9); SystematicManager s; man.ApplySystematics(s);
    for (int i = 0; i < np; i++) if (md[i] != FALSE) { bool renamed = pdf(i).GetName() == before.begin()->first; MC_CHECK(close(man.GetNormalisations()[i], renamed ? 9 : n[i]), "rename: another pdf changed", ""); } }
  state(Hash().md(man.GetParameters()).h);
}

// many pdfs, names whose alphabetical order is not the order added, a scale on all and shapes on groups
MC_SCENARIO(many) {
  int np = 4 + choose(tier(12, 30), "pdfs"), pat = choose(5, "modes"), nbuf = choose(3, "buffers"), sy = choose(4, "systematics"); Config c; if (nbuf) { c.buffered = true; c.lo = nbuf == 1 ? 1 : 0; c.hi = nbuf == 1 ? 1 : 2; c.over = pat % 2; } c.scale = sy & 1; c.shape = sy & 2;
  BinnedEDManager man; SystematicManager sys; Scale scale("scale"); Shape shape("shape"); BinnedEDShrinker shr; double sf = 0.75, k = 0.5; std::vector<BinnedED> pd; std::vector<NormFittingStatus> md; std::vector<bool> inG; VD n(np, 0); std::set<std::string> names;
  if (c.scale) { scale.SetAxes(axes1()); scale.SetDistributionObs(VN{"x"}); scale.SetTransformationObs(VN{"x"}); scale.SetParameter("scaleFactor", sf); sys.Add(&scale); } if (c.shape) { shape.SetShapeFunction(shapeFn, {"k"}); shape.SetAxes(axes1()); shape.SetDistributionObs(VN{"x"}); shape.SetTransformationObs(VN{"x"}); shape.SetParameter("k", k); sys.Add(&shape, "g"); }
  for (int i = 0; i < np; i++) { BinnedED d("p" + std::to_string(i), axes1()); d.SetObservables(VN{"x"}); for (int b = 0; b < NB; b++) d.SetBinContent(b, 1 + (i * 7 + b * 3) % 11); if (i % 2) d.Normalise(); pd.push_back(d); NormFittingStatus m = pat < 3 ? modes[pat] : modes[(i * (pat - 2) + i / 4) % 3]; md.push_back(m); inG.push_back(c.shape && i % 3 != 1); if (m != FALSE) names.insert(d.GetName()); }
  for (int i = 0; i < np; i++) { man.AddPdf(pd[i], md[i]); if (sy) sys.AddDist(pd[i], inG[i] ? "g" : ""); } if (c.buffered) { shr.SetUsingOverflows(c.over); shr.SetBuffer("x", c.lo, c.hi); shr.SetBinMap(pd[0]); }
  MC_OP(np << " pdfs, modes " << pat << " buffers " << nbuf << " systematics " << sy); MC_CHECK(man.GetParameterNames() == names && man.GetParameterCount() == names.size() && man.GetNPdfs() == (size_t)np, "many: parameters", man.GetParameterCount()); SystematicManager none;
  for (int rep = 0; rep < 3; rep++) {
    ParameterDict d; for (int i = 0; i < np; i++) if (md[i] != FALSE) d[pd[i].GetName()] = n[i] = 1.5 + i * (rep + 1) - 0.25 * (i % 3); man.SetParameters(d); MC_CHECK(mclose(man.GetParameters(), d), "many: values", mstr(man.GetParameters()));
    if (sy) sys.Construct(); man.ApplySystematics(sy ? sys : none); man.ApplyShrink(shr);
    VD want(c.buffered ? NB - c.lo - c.hi : NB, 0), rep_; for (int i = 0; i < np; i++) {
      VD x = pd[i].GetBinContents(); double eff = 1; if (c.scale) { VD y(NB, 0); for (int f = 0; f < NB; f++) { double lo = f * sf, hi = (f + 1) * sf; for (int t = 0; t < NB; t++) y[t] += x[f] * std::max(0., std::min(hi, t + 1.) - std::max(lo, (double)t)) / (hi - lo); } x = y; } if (inG[i]) for (int f = 0; f < NB; f++) x[f] *= k * (1 + f + 0.5); if (sy) eff = sum(x);
      if (c.buffered) { VD y(want.size(), 0); for (int f = 0; f < NB; f++) { int t = f - (int)c.lo; bool out = t < 0 || t >= (int)y.size(); if (out && !c.over) continue; y[std::min(std::max(t, 0), (int)y.size() - 1)] += x[f]; } double a = sum(x), q = sum(y); if (md[i] == DIRECT && q != 0) for (double &z : y) z /= q; if (md[i] == INDIRECT) eff *= a == 0 ? 0 : q / a; x = y; }
      rep_.push_back(md[i] == DIRECT ? n[i] : md[i] == INDIRECT ? n[i] * eff : sum(x)); for (size_t b = 0; b < want.size(); b++) want[b] += (md[i] == FALSE ? 1 : n[i]) * x[b]; }
    for (size_t b = 0; b < want.size(); b++) MC_CHECK(close(man.BinProbability(b), want[b], 1e-9, 1e-12), "many: expectation", "bin " << b << " got " << man.BinProbability(b) << " expected " << want[b]);
    MC_CHECK(vclose(man.GetNormalisations(), rep_, 1e-9, 1e-12), "many: normalisations reported", "got " << vstr(man.GetNormalisations()) << " expected " << vstr(rep_)); state(Hash().vd(want).h);
    sf = 1.25 - 0.25 * rep; k = 0.75; if (c.scale) scale.SetParameter("scaleFactor", sf); if (c.shape) shape.SetParameter("k", k); }
}
