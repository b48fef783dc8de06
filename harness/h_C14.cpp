// C14 the binned likelihood equals its formula and forgets earlier evaluations
#include "mc.h"
#include "expect.h"
#include <BinnedNLLH.h>
#include <Scale.h>
#include <Shape.h>
#include <BoxCut.h>
#include <CutCollection.h>
#include <OXSXDataSet.h>
#include <Event.h>
#include <CutLog.h>
#include <memory>
#include <iostream>
#include <sstream>

// ---- data
static VD events(int s) { static const VD e[3] = {{0.5, 1.5, 1.25, 3.5, 2.5, 2.75, -1}, {1.5, 1.5, 9}, {}}; return e[s]; }
static OXSXDataSet *dataSet(int s) {
  static OXSXDataSet *d[3] = {0, 0, 0};
  if (!d[s]) { d[s] = new OXSXDataSet; d[s]->SetObservableNames(VN{"q", "x"}); for (double v : events(s)) d[s]->AddEntry(Event(VD{7, v})); }
  return d[s];
}
static VD given(int k) { static const VD g[3] = {{1, 2, 3, 4}, {0, 0.5, 0, 2}, {0, 0, 0, 0}}; return g[k]; }
static BinnedED givenDist(int k) { BinnedED d("data", axes1()); d.SetObservables(VN{"x"}); for (int i = 0; i < NB; i++) d.SetBinContent(i, given(k)[i]); return d; }
struct Cutd { double lo, hi; };
static const Cutd cutv[2] = {{0, 3}, {1, 20}};

struct Ref14 {
  Config c; Ref r; std::vector<bool> inG; std::vector<int> rate; bool bb = false; double sf = 0.75, k = 0.5;
  int given_ = -1, set_ = -1; bool binned = false; std::vector<int> cuts;
  std::map<std::string, std::pair<double, double>> con;
  bool hasData() const { return given_ >= 0 || set_ >= 0; }
  VD data(bool full) const {
    VD h(NB, 0);
    if (given_ >= 0) h = given(given_); else for (double v : events(set_)) { bool ok = true; for (int q : cuts) ok = ok && v > cutv[q].lo && v < cutv[q].hi; if (ok) h[std::min(std::max(0, (int)std::floor(v)), NB - 1)]++; }
    if (full || !c.buffered) return h;
    VD x(NB - c.lo - c.hi, 0);
    for (int f = 0; f < NB; f++) { int t = f - (int)c.lo; bool out = t < 0 || t >= (int)x.size(); if (out && !c.over) continue; x[std::min(std::max(t, 0), (int)x.size() - 1)] += h[f]; }
    return x;
  }
  ParameterDict dict() const { ParameterDict d = r.dict(); if (c.scale) d["scaleFactor"] = sf; if (c.shape) d["k"] = k; return d; }
  // false: refused
  bool value(double &v) {
    if (!hasData() || r.idx.empty()) return false;
    r.distort(c, sf, k, inG); r.shrink(c);
    VD e = r.expected(), d = data(false); v = 0;
    for (size_t b = 0; b < d.size(); b++) {
      double mu = e[b], pen = 0; if (mu == 0) return false;
      if (bb) { double s2 = 0; for (size_t j = 0; j < r.idx.size(); j++) s2 += r.reported[j] / (rate[j] * mu * mu);
        double B = mu * s2 - 1, disc = std::sqrt(B * B + 4 * d[b] * s2), beta = B > 0 && d[b] > 0 ? 2 * d[b] * s2 / (B + disc) : (disc - B) / 2; pen = (beta - 1) * (beta - 1) / (2 * s2); mu *= beta; }
      v += mu + pen; if (d[b] != 0) v -= d[b] * std::log(mu);
    }
    ParameterDict p = dict();
    for (auto &q : con) { double z = (p.at(q.first) - q.second.first) / q.second.second; v += z * z / 2; }
    return true;
  }
};

struct Run {
  BinnedNLLH lh; Ref14 m; Scale scale; Shape shape; bool registered = false;
  Run() : scale("scale"), shape("shape") {}
  void systematics() {
    if (m.c.scale) { scale.SetAxes(axes1()); scale.SetDistributionObs(VN{"x"}); scale.SetTransformationObs(VN{"x"}); scale.SetParameter("scaleFactor", m.sf); if (!m.c.shape) lh.AddSystematics({&scale}); else if (!m.bb) lh.AddSystematic(&scale); }
    if (m.c.shape) { shape.SetShapeFunction(shapeFn, {"k"}); shape.SetAxes(axes1()); shape.SetDistributionObs(VN{"x"}); shape.SetTransformationObs(VN{"x"}); shape.SetParameter("k", m.k); if (m.c.scale && m.bb) { MC_CHECK(throws([&] { lh.AddSystematics({&scale, &shape}, {"g"}); }), "refusal: number of groups", ""); lh.AddSystematics({&scale, &shape}, {"", "g"}); } else lh.AddSystematic(&shape, "g"); }
  }
  void add(int j, NormFittingStatus mode, int rate) {
    bool g = m.c.shape && j != 1; std::vector<std::string> gs = {"g"};
    if (rate) { g ? lh.AddPdf(pdf(j), gs, rate, mode) : lh.AddPdf(pdf(j), rate, mode); } else { g ? lh.AddPdf(pdf(j), gs, mode) : lh.AddPdf(pdf(j), mode); }
    noteAdded(j, mode, rate);
  }
  void noteAdded(int j, NormFittingStatus mode, int rate) { m.r.add(j, mode); m.inG.push_back(m.c.shape && j != 1); m.rate.push_back(rate); }
  void buffer(unsigned lo, unsigned hi, bool over) { MC_OP("buffer " << lo << "," << hi << " overflow " << over); m.c.buffered = true; m.c.lo = lo; m.c.hi = hi; m.c.over = over; lh.SetBuffer("x", lo, hi); lh.SetBufferAsOverflow(over); }
  void constrain(const std::string &p, double a, double b) { MC_OP("constrain " << p << " " << a << " " << b); m.con[p] = {a, b}; lh.SetConstraint(p, a, b); }
  void point(double base, double sf, double k) {
    for (size_t i = 0; i < m.r.idx.size(); i++) if (m.r.mode[i] != FALSE) m.r.n[i] = base + 1.5 * i;
    m.sf = sf; m.k = k; ParameterDict d = m.dict(); MC_OP("set " << mstr(d)); lh.SetParameters(d);
  }
  void give(int k) { MC_OP("data distribution " << k); lh.SetDataDist(givenDist(k)); m.given_ = k; }
  void set(int s) { MC_OP("data set " << s); lh.SetDataSet(dataSet(s)); m.set_ = s; m.given_ = -1; }
  void cut(int q) { MC_OP("add cut " << q); lh.AddCut(BoxCut("cut" + str((double)q), "x", cutv[q].lo, cutv[q].hi)); m.cuts.push_back(q); }
  void setCuts(int q) { MC_OP("set cuts " << q); CutCollection c; m.cuts.clear(); if (q >= 0) { c.AddCut(BoxCut("only", "x", cutv[q].lo, cutv[q].hi)); m.cuts.push_back(q); } lh.SetCuts(c); }
  void evaluate(BinnedNLLH &l) {
    MC_OP("evaluate"); double want = 0, got = 0; bool ok = m.value(want);
    bool t = throws([&] { got = l.Evaluate(); });
    if (!fresh()) return;
    MC_CHECK(t == !ok, ok ? "evaluate: refused" : "evaluate: answered without data or with an empty expected bin", "got " << got);
    if (!ok) return;
    MC_CHECK(close(got, want, 1e-9, 1e-9), "evaluate: value", "got " << str(got) << " expected " << str(want));
    MC_CHECK(vclose(l.GetNormalisations(), m.r.reported, 1e-9, 1e-12), "evaluate: normalisations", "got " << vstr(l.GetNormalisations()) << " expected " << vstr(m.r.reported));
    MC_CHECK(vclose(l.GetDataDist().GetBinContents(), m.data(false), 1e-12, 1e-12), "evaluate: data", "got " << vstr(l.GetDataDist().GetBinContents()));
    state(Hash().d(want).vd(m.r.reported).md(m.dict()).h);
  }
  void evaluate() { evaluate(lh); }
  void params() {
    if (!fresh()) return;
    ParameterDict d = m.dict(); std::set<std::string> n; for (auto &x : d) n.insert(x.first);
    MC_CHECK(mclose(lh.GetParameters(), d) && lh.GetParameterNames() == n && lh.GetParameterCount() == n.size(), "parameters", "got " << mstr(lh.GetParameters()) << " expected " << mstr(d));
  }
};
static const std::vector<NormFittingStatus> modes = {DIRECT, INDIRECT, FALSE};

// every combination of modes, systematics, buffers, constraints, statistics terms and data, at several points
MC_SCENARIO_SPLIT(configurations, 5) {
  Run r; r.m.c.scale = flip("scale"); r.m.c.shape = flip("shape"); r.m.bb = flip("Barlow-Beeston"); r.systematics(); r.lh.SetBarlowBeeston(r.m.bb);
  int np = 1 + choose(tier(2, 3), "pdfs"); for (int i = 0; i < np; i++) r.add(i, modes[choose(3, "mode")], r.m.bb ? 5 * (i + 1) : 0);
  static const unsigned lo[] = {0, 1, 0, 1}, hi[] = {0, 0, 2, 1}; int b = choose(4, "buffers"); if (b) r.buffer(lo[b], hi[b], flip("overflow"));
  int da = choose(5, "data"); if (da < 3) r.give(da); else { r.set(da - 3); if (flip("cut")) r.cut(choose(2, "cut")); }
  r.lh.RegisterFitComponents();
  ParameterDict d = r.m.dict(); if (!d.empty() && flip("constraint")) { r.constrain(d.begin()->first, 0.25, 0.5); if (d.size() > 1) r.constrain((--d.end())->first, 2, 3); }
  r.params();
  int n = tier(2, 3);
  for (int e = 0; e < n; e++) { int p = choose(r.m.bb ? 3 : 4, "point"); r.point(p == 0 ? 1 : p == 1 ? 4 : p == 3 ? -0.0625 : 0.5, p == 1 ? 0.5 : p == 2 ? 0.75 : 1.25, p == 2 ? 2 : 0.5); r.evaluate(); if (e == 0) r.evaluate(); r.params(); }
}

// histories of reconfiguration, each evaluation as if it were the first
MC_SCENARIO_SPLIT(histories, 5) {
  std::unique_ptr<Run> p(new Run); Run &r = *p; int kind = choose(tier(3, 4), "kind");
  r.m.c.scale = kind != 1; r.m.c.shape = kind == 1; r.m.bb = kind >= 2; r.systematics(); r.lh.SetBarlowBeeston(r.m.bb);
  r.add(0, kind == 3 ? DIRECT : INDIRECT, 10); if (kind != 3) r.add(1, kind == 1 ? DIRECT : kind == 0 ? FALSE : INDIRECT, 20);
  r.lh.RegisterFitComponents(); r.point(2, 1.25, 0.5);
  int n = tier(4, 5);
  for (int k = 0; k < n; k++) {
    switch (choose(tier(9, 10), "op")) {
      case 0: r.point(k % 2 ? 3 : 1, k % 2 ? 0.5 : 1.25, 0.5 + k); break;
      case 1: r.evaluate(); break;
      case 2: { int b = choose(3, "buffers"); r.buffer(b == 1, b == 0 ? 0 : 1, b == 2); break; }
      case 3: r.constrain("c", 1 + k, 0.5); break;
      case 4: r.give(choose(2, "data")); break;
      case 5: r.set(choose(2, "data set")); break;
      case 6: if (r.m.cuts.size() > 1 || flip("set")) r.setCuts(choose(3, "cuts") - 1); else r.cut(choose(2, "cut")); break;
      case 7: { MC_OP("bin data"); bool t = throws([&] { r.lh.BinData(); }); MC_CHECK(t == (r.m.set_ < 0), "bin data: with or without a data set", ""); if (!t) r.m.given_ = -1; break; }
      case 8: { MC_OP("copy, evaluate the copy and drop it"); BinnedNLLH q(r.lh); ParameterDict d = r.m.dict(); MC_CHECK(mclose(q.GetParameters(), d), "copy: parameters", ""); if (r.m.hasData()) r.evaluate(q);
        d["c"] += 3; q.SetParameters(d); break; }
      case 9: r.m.bb = !r.m.bb; MC_OP("Barlow-Beeston " << r.m.bb); r.lh.SetBarlowBeeston(r.m.bb); break;
    }
    r.params();
  }
  r.evaluate(); r.evaluate();
}

// the order of configuration calls does not matter
MC_SCENARIO_SPLIT(orders, 4) {
  Run r; int mode = choose(3, "mode of the first"), bb = choose(2, "Barlow-Beeston"); r.m.c.scale = true; r.m.c.shape = true; r.m.bb = bb;
  std::vector<int> left = {0, 1, 2, 3, 4, 5, 6}; int data = choose(2, "kind of data"), how = choose(4, "ways of adding");
  r.m.bb = bb; bool twice = flip("twice");
  while (!left.empty()) {
    std::vector<int> can; for (int q : left) { bool has0 = std::find(left.begin(), left.end(), 0) != left.end(); if ((q == 1 || q == 5) && has0) continue; if (q == 5 && std::find(left.begin(), left.end(), 1) != left.end() && how != 0) continue; can.push_back(q); }
    int q = can[left.size() > (size_t)tier(4, 5) ? choose((int)can.size(), "call") : 0]; left.erase(std::find(left.begin(), left.end(), q)); MC_OP("call " << q);
    switch (q) {
      case 0: r.systematics(); break;
      case 1: { std::vector<BinnedED> v = {pdf(0), pdf(1)}; std::vector<NormFittingStatus> md = {modes[mode], INDIRECT}; std::vector<int> rate = {10, 30}; std::vector<std::vector<std::string>> gs = {{"g"}, {""}};
        if (how == 0) { r.add(0, md[0], bb ? 10 : 0); r.add(1, md[1], bb ? 30 : 0); }
        else if (how == 1) { bb ? r.lh.AddPdfs(v, gs, rate, &md) : r.lh.AddPdfs(v, gs, &md); r.noteAdded(0, md[0], 10); r.noteAdded(1, md[1], 30); }
        else if (how == 2) { if (mode != 1) prune(); bb ? r.lh.AddPdfs(v, gs, rate) : r.lh.AddPdfs(v, gs); r.noteAdded(0, INDIRECT, 10); r.noteAdded(1, INDIRECT, 30); }
        else { bb ? r.lh.AddPdfs(v, rate, &md) : r.lh.AddPdfs(v, &md); r.noteAdded(0, md[0], 10); r.noteAdded(1, md[1], 30); r.m.inG = {false, false}; }
        break; }
      case 2: r.buffer(0, 1, flip("overflow")); if (twice) r.buffer(0, 1, r.m.c.over); break;
      case 3: r.constrain("c", 1, 2); if (twice) r.constrain("c", 1, 2); break;
      case 4: for (int i = 0; i <= twice; i++) data ? r.set(0) : r.give(0); break;
      case 5: r.lh.RegisterFitComponents(); if (twice) r.lh.RegisterFitComponents(); break;
      case 6: r.lh.SetBarlowBeeston(bb); break;
    }
  }
  if (mode == 2) { r.m.con.clear(); r.constrain("a", 1, 2); r.lh.SetConstraintManager(ConstraintManager()); r.lh.SetConstraint("a", 1, 2); }
  r.point(2, 1.25, 0.5); r.params(); r.evaluate(); r.point(1, 0.5, 0.25); r.evaluate();
}

// pdfs of two observables, data of both or of one of them only, changing in the course of a history
struct Two {
  static AxisCollection axes(const VN &o) { AxisCollection c; for (auto &q : o) c.AddAxis(BinAxis(q, 0, 3, 3)); return c; }
  static double content(int j, int x, int y) { static const double c[2][9] = {{0.25, 0.125, 0, 0.125, 0.0625, 0.0625, 0.125, 0.125, 0.125}, {1, 2, 3, 0, 2, 1, 5, 1, 1}}; return c[j][x * 3 + y]; }
  static VN obs(int k) { static const VN o[4] = {{"x", "y"}, {"x"}, {"y"}, {"y", "x"}}; return o[k]; }
  static OXSXDataSet *set() { static OXSXDataSet *d = 0; if (!d) { d = new OXSXDataSet; d->SetObservableNames(VN{"y", "x"}); for (const VD &v : std::vector<VD>{{0.5, 1.5}, {2.5, 0.5}, {2.5, 2.5}, {1.5, 1.5}, {0.5, 2.5}, {9, 0.5}}) d->AddEntry(Event(v)); } return d; }
};
MC_SCENARIO_SPLIT(dimensions, 4) {
  BinnedNLLH lh; Scale sc("s"); bool scale = flip("scale"); int buf = choose(4, "buffer"), own = choose(2, "pdfs have y first"); bool over = buf && flip("overflow");
  NormFittingStatus md[2] = {modes[choose(3, "mode")], modes[choose(tier(2, 3), "mode")]}; double n[2] = {0, 0}, sf = 0.5; int da = -1;
  static const int blo[4][2] = {{0, 0}, {1, 0}, {0, 0}, {0, 1}}, bhi[4][2] = {{0, 0}, {0, 0}, {1, 0}, {1, 1}}; // x then y
  VN po = Two::obs(own ? 3 : 0);
  if (scale) { sc.SetAxes(Two::axes(po)); sc.SetDistributionObs(po); sc.SetTransformationObs(VN{"x"}); sc.SetParameter("scaleFactor", sf); lh.AddSystematic(&sc); }
  for (int j = 0; j < 2; j++) { BinnedED d(std::string(1, "ba"[j]), Two::axes(po)); d.SetObservables(po); for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) d.SetBinContent(own ? y * 3 + x : x * 3 + y, Two::content(j, x, y)); lh.AddPdf(d, md[j]); }
  if (buf) { if (buf != 3) lh.SetBuffer("x", blo[buf][0], bhi[buf][0]); else { lh.SetBuffer("x", blo[buf][0], bhi[buf][0]); lh.SetBuffer("y", blo[buf][1], bhi[buf][1]); } lh.SetBufferAsOverflow(over); }
  lh.RegisterFitComponents();
  auto params = [&] { ParameterDict d; for (int j = 0; j < 2; j++) if (md[j] != FALSE) d[std::string(1, "ba"[j])] = n[j]; if (scale) d["scaleFactor"] = sf; return d; };
  auto point = [&](int k) { n[0] = 2 + k; n[1] = 1.5 + 2 * k; sf = k ? 0.75 : 1.25; MC_OP("set " << mstr(params())); lh.SetParameters(params()); };
  // a distribution over x and y, kept on the observables of the data, then shrunk; t: its content before and after shrinking
  auto keepAndShrink = [&](const std::vector<VD> &w, const VN &o, double *t) {
    bool hx = std::find(o.begin(), o.end(), "x") != o.end(), hy = std::find(o.begin(), o.end(), "y") != o.end(); int lx = hx ? blo[buf][0] : 0, ux = hx ? bhi[buf][0] : 0, ly = hy ? blo[buf][1] : 0, uy = hy ? bhi[buf][1] : 0;
    int nx = hx ? 3 - lx - ux : 1, ny = hy ? 3 - ly - uy : 1; VD r(nx * ny, 0); if (t) t[0] = t[1] = 0;
    for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) { if (t) t[0] += w[x][y]; int ix = hx ? x - lx : 0, iy = hy ? y - ly : 0; bool out = ix < 0 || iy < 0 || ix >= nx || iy >= ny; if (out && !over) continue; ix = std::min(std::max(ix, 0), nx - 1); iy = std::min(std::max(iy, 0), ny - 1); if (t) t[1] += w[x][y]; r[o[0] == "x" ? ix * ny + iy : iy * nx + ix] += w[x][y]; }
    return r; };
  auto dataxy = [&](int k) { std::vector<VD> w(3, VD(3, 0)); if (k < 4) for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) w[x][y] = (x * 2 + y + k) % 4; else for (size_t e = 0; e < 6; e++) { static const int ex[6] = {1, 0, 2, 1, 2, 0}, ey[6] = {0, 2, 2, 1, 0, 2}; w[ex[e]][ey[e]] += 1; } return w; };
  auto evaluate = [&] {
    MC_OP("evaluate"); VN o = da == 4 ? po : Two::obs(da); VD d = keepAndShrink(dataxy(da), o, 0), e(d.size(), 0), norms; double nll = 0; bool bad = false;
    for (int j = 0; j < 2; j++) {
      std::vector<VD> w(3, VD(3, 0)); double eff = 1, t[2];
      for (int y = 0; y < 3; y++) for (int f = 0; f < 3; f++) { if (!scale) { w[f][y] = Two::content(j, f, y); continue; } double a = f * sf, b = (f + 1) * sf; for (int q = 0; q < 3; q++) w[q][y] += Two::content(j, f, y) * std::max(0., std::min(b, q + 1.) - std::max(a, (double)q)) / (b - a); }
      if (scale) { eff = 0; for (auto &v : w) eff += sum(v); }
      VD k = keepAndShrink(w, o, t); if (buf) { if (md[j] == DIRECT && t[1] != 0) for (double &q : k) q /= t[1]; eff *= t[0] == 0 ? 0 : t[1] / t[0]; }
      for (size_t b = 0; b < e.size(); b++) e[b] += (md[j] == FALSE ? 1 : n[j]) * k[b];
      norms.push_back(md[j] == DIRECT ? n[j] : md[j] == INDIRECT ? n[j] * eff : sum(k));
    }
    for (size_t b = 0; b < e.size(); b++) { bad = bad || e[b] == 0; nll += e[b]; if (d[b] != 0) nll -= d[b] * std::log(e[b]); }
    double got = 0; bool t = throws([&] { got = lh.Evaluate(); }); if (!fresh()) return;
    MC_CHECK(t == bad, bad ? "dimensions: answered with an empty expected bin" : "dimensions: refused", "got " << got); if (t) return;
    MC_CHECK(close(got, nll, 1e-9, 1e-9), "dimensions: value", "got " << str(got) << " expected " << str(nll) << " data over " << vstr(o));
    MC_CHECK(vclose(lh.GetNormalisations(), norms, 1e-9, 1e-12), "dimensions: normalisations", "got " << vstr(lh.GetNormalisations()) << " expected " << vstr(norms));
    MC_CHECK(lh.GetDataDist().GetObservables() == o && vclose(lh.GetDataDist().GetBinContents(), d, 1e-12, 1e-12), "dimensions: data", "");
    MC_CHECK(mclose(lh.GetParameters(), params()), "dimensions: parameters", "got " << mstr(lh.GetParameters()));
    state(Hash().d(nll).vd(norms).vd(d).h); };
  auto data = [&](int k) { da = k; if (k == 4) { MC_OP("data set"); lh.SetDataSet(Two::set()); return; } MC_OP("data over " << vstr(Two::obs(k))); std::vector<VD> w = dataxy(k); VN o = Two::obs(k); BinnedED d("data", Two::axes(o)); d.SetObservables(o);
    VD c(o.size() == 2 ? 9 : 3, 0); for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) c[o.size() == 2 ? (o[0] == "x" ? x * 3 + y : y * 3 + x) : o[0] == "x" ? x : y] += w[x][y]; for (size_t b = 0; b < c.size(); b++) d.SetBinContent(b, c[b]); lh.SetDataDist(d); };
  point(0); int nops = tier(3, 4);
  for (int k = 0; k < nops; k++) { data(choose(5, "data")); if (flip("point")) point((k + 1) % 2); evaluate(); if (k == 0 && flip("again")) evaluate(); }
}

// another pdf manager, another systematic manager or other normalisations set at any time count from then on
MC_SCENARIO_SPLIT(managers, 4) {
  BinnedNLLH lh; static Scale *sc[2] = {0, 0}; if (!sc[0]) for (int k = 0; k < 2; k++) { sc[k] = new Scale("s"); sc[k]->SetAxes(axes1()); sc[k]->SetDistributionObs(VN{"x"}); sc[k]->SetTransformationObs(VN{"x"}); }
  // manager k: same names, other contents; 2: twice as fine a binning
  auto content = [](int k, int j) { VD c = contents(j); if (k == 1) std::reverse(c.begin(), c.end()); if (k == 2) { VD d; for (double v : c) { d.push_back(v + 0.25); d.push_back(v / 2); } c = d; } return c; };
  auto axes = [](int k) { AxisCollection c; c.AddAxis(BinAxis("x", 0, NB, k == 2 ? 2 * NB : NB)); return c; };
  NormFittingStatus md[2] = {modes[choose(3, "mode")], modes[choose(3, "mode")]}; std::vector<NormFittingStatus> mv(md, md + 2); VD n(2, 0), fin;
  auto manager = [&](int k) { BinnedEDManager m; std::vector<BinnedED> v; for (int j = 0; j < 2; j++) { BinnedED d(j ? "a" : "c", axes(k)); d.SetObservables(VN{"x"}); VD c = content(k, j); for (size_t b = 0; b < c.size(); b++) d.SetBinContent(b, c[b]); v.push_back(d); } if (md[0] == INDIRECT && md[1] == INDIRECT) m.AddPdfs(v); else m.AddPdfs(v, &mv); return m; };
  int cur = 0, sys = -1, given_ = -1, set_ = -1; double sf[2] = {0.875, 0.8};
  auto systematics = [&](int k) { SystematicManager s; if (k >= 0) { sc[k]->SetParameter("scaleFactor", sf[k]); s.Add(sc[k]); } s.AddDist(manager(0).GetOriginalPdf(0), ""); s.AddDist(manager(0).GetOriginalPdf(1), ""); return s; };
  if (flip("added")) { BinnedEDManager m = manager(0); for (int j = 0; j < 2; j++) lh.AddPdf(m.GetOriginalPdf(j), md[j]); if (flip("..then set")) { MC_OP("set manager 1"); lh.SetPdfManager(manager(1)); cur = 1; } } else { lh.SetPdfManager(manager(0)); lh.SetSystematicManager(systematics(-1)); }
  MC_CHECK(!lh.GetBufferAsOverflow(), "managers: overflow", "");
  lh.RegisterFitComponents();
  auto norms = [&](double a) { n = {a, a + 1}; MC_OP("normalisations " << vstr(n)); lh.SetNormalisations(n); MC_CHECK(vclose(lh.GetNormalisations(), n), "managers: normalisations set", "got " << vstr(lh.GetNormalisations())); };
  norms(2); int ops = tier(3, 4);
  for (int k = 0; k <= ops; k++) {
    if (k < ops) switch (choose(6, "op")) {
      case 0: { cur = choose(3, "manager"); MC_OP("set manager " << cur); BinnedEDManager m = manager(cur); VD z = {k + 1., k + 3.}; m.SetNormalisations(z); n = z; lh.SetPdfManager(m); break; }
      case 1: { sys = choose(3, "systematics") - 1; MC_OP("set systematics " << sys); lh.SetSystematicManager(systematics(sys)); lh.RegisterFitComponents(); break; }
      case 2: norms(k + 4); break;
      case 3: given_ = choose(2, "data"); MC_OP("data distribution " << given_); lh.SetDataDist(givenDist(given_)); break;
      case 4: set_ = choose(2, "set"); given_ = -1; MC_OP("data set " << set_); lh.SetDataSet(dataSet(set_)); break;
      case 5: { ParameterDict d; if (md[0] != FALSE) d["c"] = n[0] = 7 - k; if (md[1] != FALSE) d["a"] = n[1] = 8 - k; if (sys >= 0) d["scaleFactor"] = sf[sys]; MC_OP("parameters " << mstr(d)); lh.SetParameters(d); break; }
    }
    int dk = given_ >= 0 ? 0 : cur; bool fine = cur == 2; if (given_ >= 0 && fine) { given_ = -1; set_ = 0; MC_OP("data set 0"); lh.SetDataSet(dataSet(0)); dk = 2; }
    MC_OP("evaluate"); double got = 0; bool t = throws([&] { got = lh.Evaluate(); });
    // a scale made for other axes is refused
    bool okay = (given_ >= 0 || set_ >= 0) && !(sys >= 0 && fine); if (!fresh()) continue;
    if (sys >= 0 && fine) { state(99); continue; }
    if (!okay) { MC_CHECK(t, "managers: answered without data", "got " << got); state(98); continue; }
    int nb = fine ? 2 * NB : NB; VD d(nb, 0), e(nb, 0), want; if (given_ >= 0) d = given(given_); else for (double v : events(set_)) d[std::min(std::max(0, (int)std::floor(v * nb / NB)), nb - 1)]++;
    for (int j = 0; j < 2; j++) { VD c = content(cur, j); double eff = 1; if (sys >= 0) { VD y(nb, 0); for (int f = 0; f < nb; f++) { double lo = f * sf[sys], hi = (f + 1) * sf[sys]; for (int q = 0; q < nb; q++) y[q] += c[f] * std::max(0., std::min(hi, q + 1.) - std::max(lo, (double)q)) / (hi - lo); } c = y; eff = sum(c); }
      for (int b = 0; b < nb; b++) e[b] += (md[j] == FALSE ? 1 : n[j]) * c[b]; want.push_back(md[j] == DIRECT ? n[j] : md[j] == INDIRECT ? n[j] * eff : sum(c)); }
    bool empty = false; double v = 0; for (int b = 0; b < nb; b++) { empty = empty || e[b] == 0; v += e[b]; if (d[b] != 0) v -= d[b] * std::log(e[b]); } (void)dk;
    MC_CHECK(t == empty, empty ? "managers: answered with an empty expected bin" : "managers: refused", "got " << got); if (t) { state(97); continue; }
    MC_CHECK(close(got, v, 1e-9, 1e-9), "managers: value", "got " << str(got) << " expected " << str(v));
    MC_CHECK(vclose(lh.GetNormalisations(), want, 1e-9, 1e-12), "managers: normalisations", "got " << vstr(lh.GetNormalisations()) << " expected " << vstr(want));
    MC_CHECK(vclose(lh.GetDataDist().GetBinContents(), d, 1e-12, 1e-12), "managers: data", "got " << vstr(lh.GetDataDist().GetBinContents()) << " expected " << vstr(d));
    state(Hash().d(v).vd(want).h);
  }
}

// printing what it does changes nothing
struct Quiet { std::streambuf *o; std::stringbuf b; Quiet() { o = std::cout.rdbuf(&b); } ~Quiet() { std::cout.rdbuf(o); } };
MC_SCENARIO_SPLIT(printing, 3) {
  Quiet q; Run r; r.m.c.scale = flip("scale"); r.m.bb = flip("Barlow-Beeston"); r.systematics(); r.lh.SetBarlowBeeston(r.m.bb); bool on = flip("from the start"); if (on) r.lh.SetDebugMode(true);
  r.add(0, modes[choose(3, "mode")], 10); r.add(1, INDIRECT, 20); if (flip("buffer")) r.buffer(1, 0, flip("overflow")); int da = choose(5, "data"); if (da < 3) r.give(da); else r.set(da - 3); r.lh.RegisterFitComponents();
  int kc = choose(4, "constraint"); if (kc == 1 || kc == 3) r.constrain("a", 0.25, 0.5);
  if (kc >= 2) r.lh.SetConstraint("a", 1, 2, 3); if (kc == 2) r.m.con["a"] = {1, 3}; if (kc == 3) r.m.con["a"] = {1, 3};
  for (int k = 0; k < 3; k++) { r.point(k + 2, 0.75 - 0.25 * (k % 2), 1); if (flip("switch")) { on = !on; r.lh.SetDebugMode(on); } MC_CHECK(r.lh.GetDebugMode() == on, "printing: mode", ""); r.evaluate(); r.params(); }
}

// the cut log kept is the one of the data set last binned
MC_SCENARIO(cut_log) {
  Run r; r.add(0, INDIRECT, 0); r.add(1, DIRECT, 0); r.lh.RegisterFitComponents(); r.set(0); r.point(2, 1, 1); int n = tier(4, 5);
  for (int k = 0; k < n; k++) {
    switch (choose(4, "op")) { case 0: r.set(choose(3, "set")); break; case 1: if (r.m.cuts.size() < 2 && (r.m.cuts.empty() || r.m.cuts[0] != 0)) r.cut(0); else r.setCuts(1); break; case 2: r.setCuts(choose(3, "cuts") - 1); break; case 3: r.lh.BinData(); r.m.given_ = -1; break; }
    r.evaluate(); if (!fresh()) continue;
    CutLog l = r.lh.GetSignalCutLog(); l.CalculateMeta(); std::vector<int> want(r.m.cuts.size(), 0); size_t pass = 0;
    for (double v : events(r.m.set_)) { size_t c = 0; for (; c < r.m.cuts.size(); c++) if (!(v > cutv[r.m.cuts[c]].lo && v < cutv[r.m.cuts[c]].hi)) break; if (c < r.m.cuts.size()) want[c]++; else pass++; }
    MC_CHECK(l.GetCutCounts() == want, "cut log: counts", "got " << l.GetCutCounts().size() << " counts"); (void)pass;
    state(Hash().s(l.AsString()).h);
  }
}

MC_SCENARIO(refusals) {
  BinnedNLLH lh; MC_CHECK(throws([&] { lh.Evaluate(); }), "refusal: evaluate with nothing", ""); MC_CHECK(throws([&] { lh.BinData(); }), "refusal: bin data with nothing", "");
  int what = choose(8, "what"); MC_OP("case " << what); std::vector<std::string> nope = {"nope"};
  std::vector<BinnedED> v = {pdf(0), pdf(1)}; std::vector<NormFittingStatus> one = {DIRECT}; std::vector<std::vector<std::string>> gs = {{""}}; std::vector<int> r1 = {10};
  switch (what) {
    case 0: lh.SetDataSet(dataSet(0)); MC_CHECK(throws([&] { lh.Evaluate(); }), "refusal: no pdfs, data set", ""); break;
    case 1: lh.SetDataDist(givenDist(0)); MC_CHECK(throws([&] { lh.Evaluate(); }), "refusal: no pdfs, data distribution", ""); break;
    case 2: lh.AddPdf(pdf(0)); lh.RegisterFitComponents(); MC_CHECK(throws([&] { lh.Evaluate(); }), "refusal: no data", ""); MC_CHECK(throws([&] { lh.SetParameters({{"zz", 1}}); }), "refusal: incomplete parameters", ""); break;
    case 3: MC_CHECK(throws([&] { lh.AddPdf(pdf(0), nope, DIRECT); }), "refusal: unknown group", ""); lh.RegisterFitComponents(); MC_CHECK(lh.GetParameterCount() == 0 && lh.GetNormalisations().empty(), "refusal: pdf with unknown group half added", ""); break;
    case 4: lh.SetBarlowBeeston(true); MC_CHECK(throws([&] { lh.AddPdf(pdf(0)); }) && throws([&] { lh.AddPdfs(v); }) && throws([&] { lh.AddPdf(pdf(0), std::vector<std::string>{""}); }), "refusal: no generated rate", ""); break;
    case 5: MC_CHECK(throws([&] { lh.AddPdfs(v, &one); }) && throws([&] { lh.AddPdfs(v, gs); }) && throws([&] { lh.AddPdfs(v, gs, r1); }) && throws([&] { lh.AddPdfs(v, std::vector<int>{1, 2}, &one); }), "refusal: list sizes", ""); break;
    case 6: lh.AddPdf(pdf(0)); lh.AddPdf(pdf(1)); lh.RegisterFitComponents(); lh.SetBarlowBeeston(true); lh.SetDataDist(givenDist(0)); lh.SetParameters({{"c", 1}, {"a", 2}}); MC_CHECK(throws([&] { lh.Evaluate(); }), "refusal: statistics terms without generated rates", ""); lh.SetBarlowBeeston(false); MC_CHECK(!throws([&] { lh.Evaluate(); }), "evaluate after switching them off", ""); break;
    case 7: lh.AddPdf(pdf(0)); lh.SetDataDist(givenDist(0)); lh.SetPdfManager(BinnedEDManager()); lh.SetSystematicManager(SystematicManager()); lh.RegisterFitComponents(); MC_CHECK(lh.GetParameterCount() == 0 && lh.GetNormalisations().empty(), "an empty set of pdfs set: still the earlier pdfs", ""); MC_CHECK(throws([&] { lh.Evaluate(); }), "refusal: an empty set of pdfs", ""); break;
  }
  if (what != 4) MC_CHECK(throws([&] { lh.GetBuffer("x"); }), "refusal: no buffer", "");
  state(what);
}

// many pdfs, many bins, many constraints
MC_SCENARIO_SPLIT(many, 3) {
  int np = pick(std::vector<int>{9, 13, 40}, "pdfs"), nb = pick(std::vector<int>{1, 12, 130}, "bins"), kind = choose(4, "modes"), order = choose(2, "order"); bool bb = flip("Barlow-Beeston"), buf = nb > 1 && flip("buffers"), over = buf && flip("overflow"); unsigned lo = buf ? 2 : 0, hi = buf ? 3 : 0;
  AxisCollection ax; ax.AddAxis(BinAxis("x", 0, nb, nb)); BinnedNLLH lh; lh.SetBarlowBeeston(bb); std::vector<VD> w; std::vector<NormFittingStatus> md; std::vector<std::string> nm; VD n; std::vector<int> rate;
  for (int i = 0; i < np; i++) { int q = order ? np - 1 - i : i; nm.push_back("p" + std::to_string(q)); NormFittingStatus m = kind == 0 ? INDIRECT : kind == 1 ? DIRECT : kind == 2 ? modes[i % 3] : modes[(i / 4) % 2]; md.push_back(m); VD c; for (int b = 0; b < nb; b++) c.push_back((1 + (b * 7 + q * 5) % 9) / (m == FALSE ? 4. : 8.)); w.push_back(c); n.push_back(0); rate.push_back(3 + q); BinnedED d(nm[i], ax); d.SetObservables(VN{"x"}); d.SetBinContents(c); bb ? lh.AddPdf(d, rate[i], m) : lh.AddPdf(d, m); }
  if (buf) { lh.SetBuffer("x", lo, hi); lh.SetBufferAsOverflow(over); } BinnedED data("data", ax); data.SetObservables(VN{"x"}); VD full; for (int b = 0; b < nb; b++) full.push_back((b * 11) % 7); data.SetBinContents(full); lh.SetDataDist(data);
  auto shrink = [&](const VD &v) { if (!buf) return v; VD x(nb - lo - hi, 0); for (int f = 0; f < nb; f++) { int t = f - (int)lo; bool out = t < 0 || t >= (int)x.size(); if (out && !over) continue; x[std::min(std::max(t, 0), (int)x.size() - 1)] += v[f]; } return x; };
  lh.RegisterFitComponents(); std::map<std::string, std::pair<double, double>> con; for (int i = 0; i < np; i++) if (md[i] != FALSE && i % 2) { con[nm[i]] = {1 + i, 0.5 + 0.1 * i}; lh.SetConstraint(nm[i], 1 + i, 0.5 + 0.1 * i); }
  for (int point = 0; point < 3; point++) {
    ParameterDict p; for (int i = 0; i < np; i++) if (md[i] != FALSE) p[nm[i]] = n[i] = 1 + (i * 3 + point) % 5 + 0.25 * i; lh.SetParameters(p); MC_CHECK(mclose(lh.GetParameters(), p) && lh.GetParameterCount() == p.size(), "parameters (many)", mstr(lh.GetParameters()));
    VD rep, e; std::vector<VD> s; for (int i = 0; i < np; i++) { VD x = shrink(w[i]); double a = sum(w[i]), b = sum(x); if (buf && md[i] == DIRECT) for (double &q : x) q /= b; s.push_back(x); rep.push_back(md[i] == DIRECT ? n[i] : md[i] == INDIRECT ? n[i] * (buf ? b / a : 1) : b); } VD d = shrink(full); e.assign(d.size(), 0); for (int i = 0; i < np; i++) for (size_t b = 0; b < d.size(); b++) e[b] += (md[i] == FALSE ? 1 : n[i]) * s[i][b];
    double want = 0; for (size_t b = 0; b < d.size(); b++) { double mu = e[b], pen = 0; if (bb) { double s2 = 0; for (int j = 0; j < np; j++) s2 += rep[j] / (rate[j] * mu * mu); double B = mu * s2 - 1, disc = std::sqrt(B * B + 4 * d[b] * s2), beta = B > 0 && d[b] > 0 ? 2 * d[b] * s2 / (B + disc) : (disc - B) / 2; pen = (beta - 1) * (beta - 1) / (2 * s2); mu *= beta; } want += mu + pen; if (d[b] != 0) want -= d[b] * std::log(mu); } for (auto &q : con) { double z = (p.at(q.first) - q.second.first) / q.second.second; want += z * z / 2; }
    double got = lh.Evaluate(); MC_CHECK(close(got, want, 1e-8, 1e-8), "evaluate: value (many)", "got " << str(got) << " expected " << str(want)); MC_CHECK(vclose(lh.GetNormalisations(), rep, 1e-9, 1e-12), "evaluate: normalisations (many)", vstr(lh.GetNormalisations())); BinnedNLLH q(lh); MC_CHECK(close(q.Evaluate(), want, 1e-8, 1e-8), "evaluate: value of a copy (many)", "");
    state(Hash().d(want).b(np).b(nb).h); }
}
