// C01 binning geometry
#include "mc.h"
#include <Histogram.h>
#include <BinnedED.h>
#include <BinAxis.h>
#include <AxisCollection.h>
#include <Exceptions.h>
#include <limits>
using namespace mc;
typedef std::vector<double> VD;
typedef std::vector<size_t> VS;

struct MAxis { std::string name, latex; VD lo, hi; };  // reference axis

// which half open bin holds v; gaps belong to no bin
static long refBin(const MAxis &a, double v) {
  size_t n = a.lo.size();
  if (v < a.lo[0]) return 0;
  if (v >= a.hi[n - 1]) return n - 1;
  for (size_t i = 0; i < n; i++) if (a.lo[i] <= v && v < a.hi[i]) return i;
  return -1;
}
static VD probes(const MAxis &a) {
  VD p;
  size_t n = a.lo.size();
  double inf = std::numeric_limits<double>::infinity();
  for (size_t i = 0; i < n; i++) {
    for (double e : {a.lo[i], a.hi[i]}) { p.push_back(e); p.push_back(std::nextafter(e, inf)); p.push_back(std::nextafter(e, -inf)); }
    p.push_back(0.5 * (a.lo[i] + a.hi[i]));
    p.push_back(a.lo[i] + 0.875 * (a.hi[i] - a.lo[i]));
  }
  p.push_back(a.lo[0] - 1); p.push_back(a.hi[n - 1] + 1); p.push_back(-1e300); p.push_back(1e300); p.push_back(inf); p.push_back(-inf); p.push_back(0);
  return p;
}
static void checkAxis(const BinAxis &x, const MAxis &m, const char *how) {
  size_t n = m.lo.size();
  MC_CHECK(x.GetNBins() == n, "axis: number of bins", how << " reports " << x.GetNBins() << " bins, expected " << n);
  MC_CHECK(x.GetName() == m.name && x.GetLatexName() == m.latex, "axis: names", how << " names " << x.GetName() << "/" << x.GetLatexName());
  MC_CHECK(close(x.GetMin(), m.lo[0]) && close(x.GetMinimum(), m.lo[0]), "axis: minimum", how << " min " << x.GetMin());
  MC_CHECK(close(x.GetMax(), m.hi[n - 1]) && close(x.GetMaximum(), m.hi[n - 1]), "axis: maximum", how << " max " << x.GetMax());
  VD lo = x.GetBinLowEdges(), hi = x.GetBinHighEdges(), ce = x.GetBinCentres();
  MC_CHECK(lo.size() == n && hi.size() == n && ce.size() == n, "axis: edge lists length", how);
  for (size_t i = 0; i < n; i++) {
    MC_CHECK(close(lo[i], m.lo[i]) && close(x.GetBinLowEdge(i), m.lo[i]), "axis: low edge", how << " bin " << i << " low edge " << lo[i] << " expected " << m.lo[i]);
    MC_CHECK(close(hi[i], m.hi[i]) && close(x.GetBinHighEdge(i), m.hi[i]), "axis: high edge", how << " bin " << i << " high edge " << hi[i] << " expected " << m.hi[i]);
    double c = 0.5 * (m.lo[i] + m.hi[i]);
    MC_CHECK(close(ce[i], c) && close(x.GetBinCentre(i), c), "axis: centre", how << " bin " << i << " centre " << ce[i] << " expected " << c);
    MC_CHECK(close(x.GetBinWidth(i), m.hi[i] - m.lo[i]), "axis: width", how << " bin " << i << " width " << x.GetBinWidth(i));
  }
  for (size_t bad : {n, n + 1, (size_t)-1}) {
    MC_CHECK(throws([&] { x.GetBinLowEdge(bad); }) && throws([&] { x.GetBinHighEdge(bad); }) && throws([&] { x.GetBinCentre(bad); }) && throws([&] { x.GetBinWidth(bad); }),
             "axis: bin out of range accepted", how << " bin " << bad);
  }
  // lookups against the edges the axis itself reports (equal widths may round)
  MAxis own{m.name, m.latex, lo, hi};
  for (double v : probes(own)) {
    long want = refBin(own, v);
    size_t got = x.FindBin(v);
    MC_CHECK(got < n, "axis: lookup outside the axis", how << " value " << v << " -> bin " << got);
    if (want >= 0) MC_CHECK((long)got == want, "axis: lookup", how << " value " << v << " -> bin " << got << ", its interval is bin " << want << " of low " << vstr(lo) << " high " << vstr(hi));
  }
}
static BinAxis mk(const MAxis &m, bool withLatex) { return withLatex ? BinAxis(m.name, m.lo, m.hi, m.latex) : BinAxis(m.name, m.lo, m.hi); }

MC_SCENARIO(equal_axis) {
  static const VD mins = {-2.5, 0, 1, 0.1, -1e6}, widths = {0.5, 1, 0.1, 1e6, 1.0 / 3};
  double lo = pick(mins, "min"), w = pick(widths, "width");
  size_t n = 1 + choose(tier(30, 60), "bins");
  bool latex = flip("latex");
  double hi = lo + w * n;
  MAxis m{"ax", latex ? "ltx" : "ax", {}, {}};
  for (size_t i = 0; i < n; i++) { m.lo.push_back(lo + i * (hi - lo) / n); m.hi.push_back(lo + (i + 1) * (hi - lo) / n); }
  MC_OP("axis [" << lo << "," << hi << "] in " << n << " bins");
  BinAxis a = latex ? BinAxis("ax", lo, hi, n, "ltx") : BinAxis("ax", lo, hi, n);
  checkAxis(a, m, "equal width axis");
  // adjacent bins share their edge closely and the whole is covered
  op("rename and copy");
  BinAxis b(a);
  b.SetName("other");
  MC_CHECK(b.GetName() == "other" && a.GetName() == "ax", "axis: renaming a copy", a.GetName());
  MC_CHECK(a == b && !(a != b), "axis: comparison is of the binning only", "");
  BinAxis c("ax", lo, hi, n + 1);
  MC_CHECK(a != c && !(a == c), "axis: different binnings equal", "");
  Hash h; h.s("eq").vd(m.lo).vd(m.hi); state(h.h);
}

MC_SCENARIO(variable_axis) {
  // edges chosen increasing out of a grid, optionally with one gap
  int n = 1 + choose(tier(5, 7), "bins");
  MAxis m{"v", "v", {}, {}};
  static const VD steps = {0.25, 1, 3};
  double x = pick(VD{-3, 0, 2}, "start");
  int gapAt = choose(n + 1, "gap");
  for (int i = 0; i < n; i++) {
    double w = pick(steps, "width");
    if (gapAt == i && i) x += 0.5;
    m.lo.push_back(x); m.hi.push_back(x + w); x += w;
  }
  bool latex = flip("latex");
  if (latex) m.latex = "L";
  MC_OP("variable axis low " << vstr(m.lo) << " high " << vstr(m.hi));
  BinAxis a = mk(m, latex);
  checkAxis(a, m, "variable axis");
  BinAxis b(a);
  MC_CHECK(a == b, "axis: copy differs", "");
  // change one edge: must compare different
  int k = choose(n, "perturb");
  MAxis p = m;
  if (k == n - 1) p.hi[k] += 0.125; else p.hi[k] -= 0.0625;
  BinAxis c = mk(p, latex);
  MC_CHECK(!(a == c) && a != c, "axis: different binnings equal", "high edge " << k);
  p = m;
  if (k == 0) p.lo[k] -= 0.125; else p.lo[k] += 0.0625;
  BinAxis d = mk(p, latex);
  MC_CHECK(!(a == d) && a != d, "axis: different binnings equal", "low edge " << k);
  Hash h; h.s("var").vd(m.lo).vd(m.hi); state(h.h);
}

MC_SCENARIO(bad_axis) {
  int k = choose(11, "kind"); double nan = std::nan(""), inf = std::numeric_limits<double>::infinity();
  MC_OP("malformed axis " << k);
  bool t = false;
  switch (k) {
    case 0: t = throws([] { BinAxis("x", 1, 1, 3); }); break;
    case 1: t = throws([] { BinAxis("x", 2, 1, 3); }); break;
    case 2: t = throws([] { BinAxis("x", 0, 1, 0); }); break;
    case 3: t = throws([] { BinAxis("x", VD(), VD()); }); break;
    case 4: t = throws([] { BinAxis("x", VD{0, 1}, VD{1}); }); break;
    case 5: { // one low edge out of order at any place
      int n = 2 + choose(3, "n"), i = 1 + choose(n - 1, "where");
      VD lo, hi; for (int j = 0; j < n; j++) { lo.push_back(j); hi.push_back(j + 1); }
      lo[i] = lo[i - 1] - 0.5;
      t = throws([&] { BinAxis("x", lo, hi); }); break; }
    case 6: { // a bin's low edge above its high edge at any place
      int n = 1 + choose(4, "n"), i = choose(n, "where");
      VD lo, hi; for (int j = 0; j < n; j++) { lo.push_back(j); hi.push_back(j + 1); }
      hi[i] = lo[i] - 0.25;
      t = throws([&] { BinAxis("x", lo, hi); }); break; }
    case 8: { int w = choose(4, "where"); t = throws([&] { BinAxis("x", w == 0 || w == 2 ? nan : w == 3 ? -inf : 0, w == 1 || w == 2 ? nan : w == 3 ? 1 : 2, 3); }) && (w || throws([&] { BinAxis("x", 0, inf, 3); })); break; }
    case 9: { // not a number at any place
      int n = 1 + choose(4, "n"), i = choose(n, "where"); bool low = flip("low");
      VD lo, hi; for (int j = 0; j < n; j++) { lo.push_back(j); hi.push_back(j + 1); }
      (low ? lo : hi)[i] = nan;
      t = throws([&] { BinAxis("x", lo, hi); }); break; }
    case 10: { // one high edge out of order at any place
      int n = 2 + choose(3, "n"), i = choose(n - 1, "where");
      VD lo, hi; for (int j = 0; j < n; j++) { lo.push_back(j); hi.push_back(j + 1); }
      hi[i] = hi[i + 1] + 0.25;
      t = throws([&] { BinAxis("x", lo, hi); }); break; }
    case 7: t = throws([] { BinAxis("x", VD{0}, VD{1, 2}); }); break;
  }
  MC_CHECK(t, "malformed axis accepted", "kind " << k);
  state(Hash().s("bad").b(k).h);
}

static AxisCollection collect(std::vector<MAxis> &ms, int dims) {
  AxisCollection c;
  MC_CHECK(c.GetNBins() == 0 && c.GetNDimensions() == 0, "collection: not empty when new", "");
  int bulk = dims > 1 ? choose(2, "add all at once") : 0;
  std::vector<BinAxis> bx;
  for (int d = 0; d < dims; d++) {
    int n = 1 + choose(dims > 3 ? 3 : tier(4, 5), "bins");
    MAxis m{"a" + std::to_string(d), "a" + std::to_string(d), {}, {}};
    double x = -1 + 2 * d;
    for (int i = 0; i < n; i++) { double w = 0.5 + 0.25 * ((i + d) % 3); m.lo.push_back(x); m.hi.push_back(x + w); x += w; }
    ms.push_back(m);
    BinAxis b = mk(m, false);
    MC_OP("add axis " << m.name << " with " << n << " bins");
    if (bulk) bx.push_back(b); else { c.AddAxis(b);
      size_t tot = 1; for (auto &q : ms) tot *= q.lo.size();
      MC_CHECK(c.GetNBins() == tot && c.GetNDimensions() == ms.size(), "collection: bin count after adding", c.GetNBins() << " expected " << tot); }
  }
  if (bulk) c.AddAxes(bx);
  return c;
}

MC_SCENARIO_SPLIT(collection, 3) {
  int dims = 1 + choose(tier(4, 5), "dims");
  std::vector<MAxis> ms;
  AxisCollection c = collect(ms, dims);
  size_t tot = 1; for (auto &q : ms) tot *= q.lo.size();
  MC_CHECK(c.GetNBins() == tot && c.GetNDimensions() == (size_t)dims, "collection: bin count", c.GetNBins() << " expected " << tot);
  std::vector<std::string> names; for (auto &m : ms) names.push_back(m.name);
  MC_CHECK(c.GetAxisNames() == names, "collection: names", vstr(c.GetAxisNames()));
  for (int d = 0; d < dims; d++) {
    MC_CHECK(c.GetAxisIndex(ms[d].name) == (size_t)d, "collection: axis index", ms[d].name);
    MC_CHECK(c.GetAxis(d).GetName() == ms[d].name && c.GetAxis(ms[d].name).GetName() == ms[d].name, "collection: axis by index and name", ms[d].name);
    MC_CHECK(c.GetAxis(d).GetBinLowEdges() == ms[d].lo && c.GetAxis(ms[d].name).GetBinHighEdges() == ms[d].hi, "collection: axis binning", ms[d].name);
  }
  // every global bin, row major in the order of addition
  VS idx(dims, 0);
  for (size_t g = 0; g < tot; g++) {
    size_t r = g;
    for (int d = dims; d-- > 0;) { idx[d] = r % ms[d].lo.size(); r /= ms[d].lo.size(); }
    MC_CHECK(c.FlattenIndices(idx) == g, "collection: flatten", "indices " << vstr(VD(idx.begin(), idx.end())) << " -> " << c.FlattenIndices(idx) << " expected " << g);
    MC_CHECK(c.UnpackIndices(g) == idx, "collection: unpack", "bin " << g);
    VD lo(dims), hi(dims), ce(dims), v(dims);
    c.GetBinLowEdges(g, lo); c.GetBinHighEdges(g, hi); c.GetBinCentres(g, ce);
    for (int d = 0; d < dims; d++) {
      size_t i = idx[d];
      double L = ms[d].lo[i], H = ms[d].hi[i];
      MC_CHECK(c.UnflattenIndex(g, d) == i, "collection: unflatten", "bin " << g << " dim " << d << " -> " << c.UnflattenIndex(g, d) << " expected " << i);
      MC_CHECK(close(lo[d], L) && close(c.GetBinLowEdge(g, d), L), "collection: low edge", "bin " << g << " dim " << d);
      MC_CHECK(close(hi[d], H) && close(c.GetBinHighEdge(g, d), H), "collection: high edge", "bin " << g << " dim " << d);
      MC_CHECK(close(ce[d], (L + H) / 2) && close(c.GetBinCentre(g, d), (L + H) / 2), "collection: centre", "bin " << g << " dim " << d);
      MC_CHECK(close(c.GetBinWidth(g, d), H - L), "collection: width", "bin " << g << " dim " << d);
      v[d] = L;
    }
    MC_CHECK(c.FindBin(ce) == g, "collection: lookup of a centre", "bin " << g << " -> " << c.FindBin(ce));
    MC_CHECK(c.FindBin(v) == g, "collection: lookup of a low edge", "bin " << g << " -> " << c.FindBin(v));
    // moving one coordinate outside clamps on that axis alone
    for (int d = 0; d < dims; d++) {
      VD u = ce; VS e = idx;
      u[d] = -1e9; e[d] = 0;
      MC_CHECK(c.FindBin(u) == c.FlattenIndices(e), "collection: underflow on one axis", "bin " << g << " dim " << d);
      u[d] = 1e9; e[d] = ms[d].lo.size() - 1;
      MC_CHECK(c.FindBin(u) == c.FlattenIndices(e), "collection: overflow on one axis", "bin " << g << " dim " << d);
    }
  }
  // histograms and distributions over these axes answer as the axes do
  Histogram hi(c); BinnedED ed("d", c);
  MC_CHECK(hi.GetAxisNames() == names && hi.GetNBins() == tot && hi.GetNDims() == (unsigned)dims && ed.GetNBins() == tot && ed.GetNDims() == (unsigned)dims && ed.GetAxes() == c && hi.GetAxes() == c, "histogram: axes", "");
  for (int d = 0; d < dims; d++) MC_CHECK(hi.GetAxisIndex(names[d]) == (size_t)d && c.GetAxisIndex(names[d]) == (size_t)d, "histogram: axis index", "");
  MC_CHECK(throws([&] { hi.GetAxisIndex("nope"); }), "histogram: unknown axis accepted", "");
  for (size_t g = 0; g < tot; g++) {
    VD a(dims), b(dims), lo(dims), up(dims), ce(dims), ce2(dims); hi.GetBinLowEdges(g, a); c.GetBinLowEdges(g, lo); hi.GetBinHighEdges(g, b); c.GetBinHighEdges(g, up); hi.GetBinCentres(g, ce); c.GetBinCentres(g, ce2);
    MC_CHECK(a == lo && b == up && ce == ce2, "histogram: edges", "bin " << g); MC_CHECK(hi.FindBin(ce) == g && ed.FindBin(ce) == g && hi.UnpackIndices(g) == c.UnpackIndices(g) && hi.FlattenIndices(c.UnpackIndices(g)) == g, "histogram: lookup", "bin " << g);
    for (int d = 0; d < dims; d++) MC_CHECK(hi.GetBinLowEdge(g, d) == lo[d] && hi.GetBinHighEdge(g, d) == up[d] && hi.GetBinCentre(g, d) == ce2[d], "histogram: edges", "bin " << g << " dim " << d);
    if (dims == 1) MC_CHECK(hi.FindBin(ce[0]) == g && hi.FindBin(lo[0]) == g, "histogram: lookup of a number", ""); else MC_CHECK(throws([&] { hi.FindBin(0.5); }), "histogram: lookup of a number in several dimensions", "");
  }
  // refusals
  op("refusals");
  for (size_t bad : {tot, tot + 1, (size_t)-1}) {
    VD o(dims);
    for (int d = 0; d < dims; d++)
      MC_CHECK(throws([&] { c.GetBinLowEdge(bad, d); }) && throws([&] { c.GetBinHighEdge(bad, d); }) && throws([&] { c.GetBinCentre(bad, d); }) && throws([&] { c.GetBinWidth(bad, d); }), "collection: out of range bin accepted", "bin " << bad);
    MC_CHECK(throws([&] { c.GetBinLowEdges(bad, o); }) && throws([&] { c.GetBinHighEdges(bad, o); }) && throws([&] { c.GetBinCentres(bad, o); }), "collection: out of range bin accepted by the vector accessors", "bin " << bad);
  }
  MC_CHECK(throws([&] { c.GetBinLowEdge(0, dims); }) && throws([&] { c.GetBinHighEdge(0, dims); }) && throws([&] { c.GetBinCentre(0, dims); }) && throws([&] { c.GetBinWidth(0, dims); }), "collection: unknown dimension accepted", "");
  MC_CHECK(throws([&] { c.GetAxis(dims); }) && throws([&] { c.GetAxis("nope"); }) && throws([&] { c.GetAxisIndex("nope"); }), "collection: unknown axis accepted", "");
  for (int k : {dims - 1, dims + 1}) {
    VD v(k, 0.5), o(k); VS i(k, 0);
    MC_CHECK(throws([&] { c.FindBin(v); }) && throws([&] { c.FlattenIndices(i); }), "collection: wrong dimension accepted", k << " values");
    MC_CHECK(throws([&] { c.GetBinLowEdges(0, o); }) && throws([&] { c.GetBinHighEdges(0, o); }) && throws([&] { c.GetBinCentres(0, o); }), "collection: wrong output dimension accepted", k << " values");
  }
  for (int d = 0; d < dims; d++) {
    BinAxis dup(ms[d].name, 0, 1, 2);
    MC_CHECK(throws([&] { c.AddAxis(dup); }), "collection: duplicate axis accepted", ms[d].name);
  }
  MC_CHECK(c.GetNBins() == tot && c.GetNDimensions() == (size_t)dims && c.GetAxisNames() == names, "collection: changed by a refused axis", "");
  AxisCollection k(c);
  MC_CHECK(k == c && !(k != c), "collection: copy differs", "");
  k.AddAxis(BinAxis("extra", 0, 1, 1));
  MC_CHECK(k != c && !(k == c) && c.GetNBins() == tot, "collection: copy not independent", "");
  Hash h; h.s("col"); for (auto &m : ms) h.vd(m.lo); state(h.h);
}

// two axes, or sets of axes, are equal exactly when their bins are the same
static std::vector<MAxis> binnings() {
  return {{"a", "a", {0, 1, 2}, {1, 2, 3}}, {"a", "a", {0, 1, 2}, {1, 2, 4}}, {"a", "a", {-1, 1, 2}, {1, 2, 3}}, {"a", "a", {0, 0.5, 2}, {0.5, 2, 3}}, {"a", "a", {0, 1}, {1, 2}}, {"a", "a", {0, 1, 2}, {0.5, 2, 3}}, {"a", "a", {0, 1.5, 2}, {1, 2, 3}}};
}
MC_SCENARIO(equality) {
  std::vector<MAxis> all = binnings(); int dims = 1 + choose(3, "dims"); std::vector<int> k[2]; AxisCollection c[2]; bool bulk = flip("all at once");
  for (int w = 0; w < 2; w++) { std::vector<BinAxis> v; for (int d = 0; d < dims; d++) { k[w].push_back(d + 1 < dims && w ? (int)((k[0][d] + choose(2, "other bins")) % all.size()) : choose(d ? 3 : (int)all.size(), "bins")); MAxis m = all[k[w][d]]; v.push_back(BinAxis("x" + std::to_string(d), m.lo, m.hi)); if (!bulk) c[w].AddAxis(v.back()); } if (bulk) c[w].AddAxes(v); }
  bool same = k[0] == k[1]; MC_OP("bins " << vstr(VD(k[0].begin(), k[0].end())) << " and " << vstr(VD(k[1].begin(), k[1].end())));
  MC_CHECK((c[0] == c[1]) == same && (c[1] == c[0]) == same, "equality of sets of axes", (c[0] == c[1])); MC_CHECK((c[0] != c[1]) == !same && (c[1] != c[0]) == !same, "inequality of sets of axes", (c[0] != c[1]));
  for (int d = 0; d < dims; d++) { bool q = k[0][d] == k[1][d]; MC_CHECK((c[0].GetAxis(d) == c[1].GetAxis(d)) == q && (c[0].GetAxis(d) != c[1].GetAxis(d)) == !q, "equality of axes", "axis " << d); }
  AxisCollection copy(c[0]), assigned; assigned = c[1]; MC_CHECK(copy == c[0] && !(copy != c[0]) && assigned == c[1], "a copy differs", ""); AxisCollection more(c[0]); more.AddAxis(BinAxis("extra", 0, 1, 1)); MC_CHECK(more != c[0] && !(more == c[0]) && c[0] != more, "equal to axes with one more", "");
  state(Hash().vd(VD(k[0].begin(), k[0].end())).vd(VD(k[1].begin(), k[1].end())).h);
}

// many bins and many axes
MC_SCENARIO(many) {
  if (flip("axes")) {
    int dims = 5 + choose(2, "dims"), odd = choose(dims, "which axis differs"); AxisCollection c; std::vector<size_t> n; size_t tot = 1; VD width;
    for (int d = 0; d < dims; d++) { n.push_back(d == odd ? 4 : 3); width.push_back(0.5 + 0.25 * d); c.AddAxis(BinAxis("n" + std::to_string((7 * d + 3) % 10), -d, -d + n[d] * width[d], n[d])); tot *= n[d]; }
    MC_OP(dims << " axes with " << tot << " bins"); MC_CHECK(c.GetNBins() == tot && c.GetNDimensions() == (size_t)dims, "collection: bin count", c.GetNBins());
    VS idx(dims, 0); for (size_t g = 0; g < tot; g++) { size_t r = g; VD ce(dims), got(dims), v(dims); for (int d = dims; d-- > 0;) { idx[d] = r % n[d]; r /= n[d]; ce[d] = -d + (idx[d] + 0.5) * width[d]; v[d] = -d + (idx[d] + 0.125) * width[d]; }
      MC_CHECK(c.FlattenIndices(idx) == g && c.UnpackIndices(g) == idx, "collection: flatten", "bin " << g); c.GetBinCentres(g, got); MC_CHECK(vclose(got, ce), "collection: centre", "bin " << g); MC_CHECK(c.FindBin(v) == g, "collection: lookup", "bin " << g << " -> " << c.FindBin(v)); for (int d = 0; d < dims; d++) MC_CHECK(c.UnflattenIndex(g, d) == idx[d] && close(c.GetBinWidth(g, d), width[d]), "collection: unflatten", "bin " << g << " dim " << d); }
    state(Hash().b(dims).b(odd).h); return; }
  size_t n = pick(std::vector<size_t>{100, 257, 1000, 4097}, "bins"); bool variable = flip("variable"); MAxis m{"m", "m", {}, {}}; double x = pick(VD{-20, 0, 3.3}, "start");
  if (!variable) { double hi = x + 0.125 * n; BinAxis a("m", x, hi, n); for (size_t i = 0; i < n; i++) { m.lo.push_back(x + i * 0.125); m.hi.push_back(x + (i + 1) * 0.125); } MC_OP(n << " equal bins"); MC_CHECK(a.GetNBins() == n, "axis: number of bins", a.GetNBins()); for (size_t i = 0; i < n; i++) MC_CHECK(a.FindBin(m.lo[i] + 0.0625) == i && close(a.GetBinCentre(i), m.lo[i] + 0.0625) && close(a.GetBinLowEdge(i), m.lo[i]) && close(a.GetBinHighEdge(i), m.hi[i]), "axis: many bins", "bin " << i << " of " << n); }
  else { for (size_t i = 0; i < n; i++) { double w = 0.25 + (i * i) % 5; m.lo.push_back(x); x += w; m.hi.push_back(x); } BinAxis a = mk(m, false); MC_OP(n << " unequal bins"); MC_CHECK(a.GetNBins() == n, "axis: number of bins", a.GetNBins()); for (size_t i = 0; i < n; i++) MC_CHECK(a.FindBin(m.lo[i]) == i && a.FindBin(0.5 * (m.lo[i] + m.hi[i])) == i && a.FindBin(std::nextafter(m.hi[i], m.lo[i])) == i && close(a.GetBinWidth(i), m.hi[i] - m.lo[i]), "axis: many bins", "bin " << i << " of " << n); }
  state(Hash().b(n).b(variable).d(m.lo[0]).h);
}
