// C03 projections, slices, reshaping
#include "mc.h"
#include <Histogram.h>
#include <BinnedED.h>
#include <HistTools.h>
#include <algorithm>
using namespace mc;
typedef std::vector<double> VD;
typedef std::vector<std::string> VN;

struct Ref {  // reference: contents by named coordinates
  VN names; std::vector<VD> edges; VD c;
  size_t n(size_t d) const { return edges[d].size() - 1; }
  size_t bins() const { size_t r = 1; for (size_t d = 0; d < names.size(); d++) r *= n(d); return r; }
  std::vector<size_t> idx(size_t g) const { std::vector<size_t> r(names.size()); for (size_t d = r.size(); d-- > 0;) { r[d] = g % n(d); g /= n(d); } return r; }
  size_t flat(const std::vector<size_t> &i) const { size_t g = 0; for (size_t d = 0; d < names.size(); d++) g = g * n(d) + i[d]; return g; }
};
static const VN NM = {"c", "a", "d", "b", "A"};
static AxisCollection axes(const Ref &r) {
  AxisCollection a;
  for (size_t d = 0; d < r.names.size(); d++) a.AddAxis(BinAxis(r.names[d], VD(r.edges[d].begin(), r.edges[d].end() - 1), VD(r.edges[d].begin() + 1, r.edges[d].end())));
  return a;
}
static Ref build(int maxD, int maxN) {
  Ref r;
  int D = 1 + choose(maxD, "dims");
  for (int d = 0; d < D; d++) {
    int n = 1 + choose(D == 5 ? 2 : D == 4 ? tier(2, 3) : maxN, "bins");
    VD e{double(d)}; for (int i = 0; i < n; i++) e.push_back(e.back() + 0.5 + 0.25 * ((d + 2 * i) % 3));
    r.names.push_back(NM[d]); r.edges.push_back(e);
  }
  r.c.resize(r.bins());
  for (size_t g = 0; g < r.c.size(); g++) r.c[g] = 1 + g + 0.37 * g * g - (g % 3 == 1 ? 40.25 : 0);
  return r;
}
static Ref marg(const Ref &r, const VN &keep) {
  Ref o; std::vector<size_t> at;
  for (auto &k : keep) { size_t d = std::find(r.names.begin(), r.names.end(), k) - r.names.begin(); at.push_back(d); o.names.push_back(k); o.edges.push_back(r.edges[d]); }
  o.c.assign(o.bins(), 0);
  for (size_t g = 0; g < r.c.size(); g++) { auto i = r.idx(g); std::vector<size_t> j; for (size_t d : at) j.push_back(i[d]); o.c[o.flat(j)] += r.c[g]; }
  return o;
}
static Ref slice(const Ref &r, const std::map<std::string, size_t> &fix) {
  Ref o; std::vector<size_t> at;
  for (size_t d = 0; d < r.names.size(); d++) if (!fix.count(r.names[d])) { at.push_back(d); o.names.push_back(r.names[d]); o.edges.push_back(r.edges[d]); }
  o.c.assign(o.bins(), 0);
  for (size_t g = 0; g < r.c.size(); g++) {
    auto i = r.idx(g); bool in = true;
    for (auto &f : fix) { size_t d = std::find(r.names.begin(), r.names.end(), f.first) - r.names.begin(); in = in && i[d] == f.second; }
    if (!in) continue;
    std::vector<size_t> j; for (size_t d : at) j.push_back(i[d]);
    o.c[o.flat(j)] += r.c[g];
  }
  return o;
}
template <class H> static void same(const H &h, const Ref &r, const std::string &sig, const std::string &what) {
  MC_CHECK(h.GetAxes().GetAxisNames() == r.names, sig + ": axes", what << " has axes " << vstr(h.GetAxes().GetAxisNames()) << " expected " << vstr(r.names));
  MC_CHECK(h.GetAxes() == axes(r) && (size_t)h.GetNDims() == r.names.size() && h.GetNBins() == r.c.size(), sig + ": binning", what);
  VD got = h.GetBinContents();
  MC_CHECK(vclose(got, r.c), sig + ": contents", what << " gives " << vstr(got) << " expected " << vstr(r.c));
}
static std::vector<VN> ordered(const VN &n) {  // every non-empty ordered subset
  std::vector<VN> out;
  for (unsigned m = 1; m < (1u << n.size()); m++) {
    VN s; for (size_t i = 0; i < n.size(); i++) if (m >> i & 1) s.push_back(n[i]);
    do out.push_back(s); while (std::next_permutation(s.begin(), s.end()));
  }
  return out;
}
static Histogram mkh(const Ref &r) { Histogram h(axes(r)); h.SetBinContents(r.c); return h; }
static double sum(const VD &v) { double s = 0; for (double x : v) s += x; return s; }

MC_SCENARIO_SPLIT(marginalise, 3) {
  Ref r = build(5, 4);
  Histogram h = mkh(r);
  BinnedED b("pdf", h); b.SetObservables(r.names);
  VN keep = pick(ordered(r.names), "axes");
  MC_OP("project " << vstr(r.names) << " onto " << vstr(keep));
  Ref want = marg(r, keep);
  Histogram p = h.Marginalise(keep);
  same(p, want, "projection", "histogram projection");
  MC_CHECK(close(p.Integral(), sum(r.c)), "projection: integral not conserved", p.Integral());
  BinnedED q = b.Marginalise(keep);
  same(q, want, "projection of a distribution", "distribution projection");
  MC_CHECK(q.GetObservables() == keep, "projection of a distribution: observables", vstr(q.GetObservables()));
  same(h, r, "projection changed its source", "source"); same(b, r, "projection changed its source", "source");
  if (keep.size() == 1) { same(h.Marginalise(keep[0]), want, "projection by single name", ""); same(b.Marginalise(keep[0]), want, "projection of a distribution by single name", ""); }
  // in two steps
  for (auto &k2 : ordered(keep)) {
    same(p.Marginalise(k2), marg(r, k2), "projection in two steps", "via " + vstr(keep) + " onto " + vstr(k2));
  }
  // unknown axes at any position are refused
  for (size_t i = 0; i <= keep.size(); i++) { VN bad = keep; bad.insert(bad.begin() + i, "nope"); MC_CHECK(throws([&] { h.Marginalise(bad); }) && throws([&] { b.Marginalise(bad); }), "projection onto unknown axis accepted", vstr(bad)); }
  { VN dup = keep; dup.push_back(keep[0]); MC_CHECK(throws([&] { h.Marginalise(dup); }), "projection onto a repeated axis accepted", vstr(dup)); }
  state(Hash().s("m").vd(want.c).vs(keep).h);
}

MC_SCENARIO_SPLIT(slices, 3) {
  Ref r = build(5, 4);
  Histogram h = mkh(r);
  BinnedED b("pdf", h); b.SetObservables(r.names);
  std::map<std::string, size_t> fix;
  for (size_t d = 0; d < r.names.size(); d++) { int k = choose((int)r.n(d) + 1, "fix"); if (k) fix[r.names[d]] = k - 1; }
  MC_OP("slice " << vstr(r.names) << " at " << mstr(fix));
  if (fix.size() == r.names.size()) {
    MC_CHECK(throws([&] { h.GetSlice(fix); }) && throws([&] { b.GetSlice(fix); }), "slice without free axis accepted", "");
    return;
  }
  Ref want = slice(r, fix);
  same(h.GetSlice(fix), want, "slice", "histogram slice");
  BinnedED q = b.GetSlice(fix);
  same(q, want, "slice of a distribution", "distribution slice");
  MC_CHECK(q.GetObservables() == want.names, "slice of a distribution: observables", vstr(q.GetObservables()));
  same(h, r, "slice changed its source", "source"); same(b, r, "slice changed its source", "source");
  // unknown axis, and any fixed axis beyond its last bin
  if (fix.size() + 1 < r.names.size() + 1) { auto bad = fix; bad["nope"] = 0; MC_CHECK(throws([&] { h.GetSlice(bad); }) && throws([&] { b.GetSlice(bad); }), "slice of unknown axis accepted", mstr(bad)); }
  for (auto &f : fix) {
    size_t d = std::find(r.names.begin(), r.names.end(), f.first) - r.names.begin();
    for (size_t over : {r.n(d), r.n(d) + 1, r.n(d) + 50}) { auto bad = fix; bad[f.first] = over; MC_CHECK(throws([&] { h.GetSlice(bad); }) && throws([&] { b.GetSlice(bad); }), "slice beyond the last bin accepted", mstr(bad)); }
  }
  // slices of a slice agree
  for (size_t d = 0; d < want.names.size() && want.names.size() > 1; d++) {
    std::map<std::string, size_t> f2{{want.names[d], want.n(d) - 1}};
    same(h.GetSlice(fix).GetSlice(f2), slice(want, f2), "slice of a slice", "");
  }
  state(Hash().s("s").vd(want.c).vs(want.names).h);
}

MC_SCENARIO_SPLIT(tools, 3) {
  Ref r = build(5, 4);
  size_t D = r.names.size();
  Histogram h = mkh(r);
  BinnedED b("pdf", h); b.SetObservables(r.names);
  int k = choose(3, "tool");
  if (k == 0) {
    MC_OP("all projections of " << vstr(r.names));
    auto v = HistTools::GetVisualisableProjections(h);
    auto w = HistTools::GetVisualisableProjections(b);
    size_t expect = D + (D > 2 ? D * (D - 1) / 2 : 0);
    MC_CHECK(v.size() == expect && w.size() == expect, "visualisable projections: number", v.size() << " expected " << expect);
    std::set<std::set<std::string>> seen;
    for (size_t i = 0; i < v.size(); i++) {
      VN n = v[i].GetAxes().GetAxisNames();
      MC_CHECK(n.size() >= 1 && n.size() <= 2, "visualisable projections: dimension", "");
      same(v[i], marg(r, n), "visualisable projections", vstr(n));
      same(w[i], marg(r, w[i].GetAxes().GetAxisNames()), "visualisable projections of a distribution", "");
      MC_CHECK(seen.insert(std::set<std::string>(n.begin(), n.end())).second, "visualisable projections: repeated", vstr(n));
    }
  } else if (k == 1) {
    size_t d = choose((int)D, "axis");
    MC_OP("one dimensional slices along " << r.names[d]);
    if (D == 1) { return; }
    auto v = HistTools::Get1DSlices(h, r.names[d]);
    auto w = HistTools::Get1DSlices(b, r.names[d]);
    MC_CHECK(v.size() == r.bins() / r.n(d) && w.size() == v.size(), "1D slices: number", v.size());
    std::multiset<std::string> got, want, gotb;
    for (auto &x : v) { MC_CHECK(x.GetAxes().GetAxisNames() == VN{r.names[d]}, "1D slices: axis", ""); got.insert(vstr(x.GetBinContents())); }
    for (auto &x : w) gotb.insert(vstr(x.GetBinContents()));
    for (size_t g = 0; g < r.bins(); g++) {
      auto i = r.idx(g); if (i[d]) continue;
      VD s; for (size_t q = 0; q < r.n(d); q++) { i[d] = q; s.push_back(r.c[r.flat(i)]); }
      want.insert(vstr(s));
    }
    MC_CHECK(got == want && gotb == want, "1D slices: contents", "");
  } else {
    MC_OP("make and fill all histograms");
    std::set<std::string> one(r.names.begin(), r.names.end());
    auto m1 = HistTools::MakeAllHists(axes(r), one);
    MC_CHECK(m1.size() == D, "make all: number", m1.size());
    std::set<std::pair<std::string, std::string>> two;
    for (size_t i = 0; i < D; i++) for (size_t j = 0; j < D; j++) if (i != j) two.insert({r.names[i], r.names[j]});
    auto m2 = HistTools::MakeAllHists(axes(r), two);
    MC_CHECK(m2.size() == two.size(), "make all: number of pairs", m2.size());
    // fill every bin centre once with its own dictionary
    for (size_t g = 0; g < r.bins(); g++) {
      auto i = r.idx(g); std::map<std::string, double> v{{"other", 1e3}};
      for (size_t d = 0; d < D; d++) v[r.names[d]] = 0.5 * (r.edges[d][i[d]] + r.edges[d][i[d] + 1]);
      if (g % 2) continue;  // only the even bins, to tell them apart
      HistTools::FillAllHists(m1, v); HistTools::FillAllHists(m2, v);
    }
    Ref f = r; for (size_t g = 0; g < f.c.size(); g++) f.c[g] = g % 2 ? 0 : 1;
    for (auto &p : m1) same(p.second, marg(f, {p.first}), "fill all", p.first);
    for (auto &p : two) { MC_CHECK(m2.count(p.first + "_" + p.second), "make all: naming of pairs", p.first + "_" + p.second); same(m2.at(p.first + "_" + p.second), marg(f, {p.first, p.second}), "fill all pairs", p.first + p.second); }
    std::map<std::string, double> incomplete{{"other", 1}};
    MC_CHECK(throws([&] { HistTools::FillAllHists(m1, incomplete); }), "fill all with missing values accepted", "");
    VN bad = {"nope"};
    MC_CHECK(throws([&] { HistTools::MakeAllHists(axes(r), bad); }), "make all of unknown axis accepted", "");
  }
  state(Hash().s("t").b(k).vd(r.c).h);
}

// long axes and many axes, names whose alphabetical order is not the axis order
MC_SCENARIO(many) {
  static const std::vector<std::vector<int>> shapes = {{300}, {257, 2}, {2, 257}, {33, 40}, {12, 11, 13}, {2, 129, 3}, {1, 300, 1}, {3, 4, 5, 6}, {2, 3, 2, 3, 2}, {2, 2, 2, 2, 2, 2}, {2, 1, 3, 1, 2, 2, 2}, {2, 2, 2, 2, 2, 2, 2, 2}};
  auto sh = pick(shapes, "shape"); Ref r;
  for (size_t d = 0; d < sh.size(); d++) { VD e{double(d)}; for (int i = 0; i < sh[d]; i++) e.push_back(e.back() + 0.5 + 0.25 * ((d + 2 * i) % 3)); r.names.push_back("n" + std::to_string(11 - d)); r.edges.push_back(e); }
  r.c.resize(r.bins()); for (size_t g = 0; g < r.c.size(); g++) r.c[g] = 1 + (g * 37 % 1009) - (g % 3 == 1 ? 40.25 : 0);
  Histogram h = mkh(r); BinnedED b("pdf", h); b.SetObservables(r.names); size_t D = sh.size();
  // kept axes: rotations of every prefix, in both directions, with some skipped
  int rot = choose((int)D, "rotation"), len = 1 + choose((int)D, "kept"), dir = choose(2, "direction"), skip = 1 + choose(D > 2 ? 2 : 1, "stride"); VN keep;
  for (int i = 0; i < len; i++) { size_t k = ((rot + (dir ? (int)D - i * skip % (int)D : i * skip)) % (int)D + D) % D; if (std::find(keep.begin(), keep.end(), r.names[k]) == keep.end()) keep.push_back(r.names[k]); }
  MC_OP("shape " << vstr(sh) << " keep " << vstr(keep));
  Ref want = marg(r, keep); same(h.Marginalise(keep), want, "many: projection", "histogram"); same(b.Marginalise(keep), want, "many: projection", "distribution");
  // fix every axis not kept, at its last, first and middle bin
  int where = choose(3, "bin"); std::map<std::string, size_t> fix;
  for (size_t d = 0; d < D; d++) if (std::find(keep.begin(), keep.end(), r.names[d]) == keep.end()) fix[r.names[d]] = where == 0 ? sh[d] - 1 : where == 1 ? 0 : sh[d] / 2;
  if (!fix.empty() && fix.size() < D) { same(h.GetSlice(fix), slice(r, fix), "many: slice", "fixed " + vstr(keep)); }
  same(h, r, "many: source changed", "source");
  if (len == 1) for (int i = 0; i < sh[rot]; i += 1 + sh[rot] / 7) if (D > 1) { std::map<std::string, size_t> f{{r.names[rot], (size_t)i}}; same(h.GetSlice(f), slice(r, f), "many: slice", r.names[rot]); }
  state(Hash().vd(want.c).h);
}
