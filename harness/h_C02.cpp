// C02 histogram bookkeeping over operation sequences
#include "mc.h"
#include <Histogram.h>
#include <BinnedED.h>
#include <Event.h>
using namespace mc;
typedef std::vector<double> VD;

struct Cfg { std::vector<VD> edges; };  // per axis edges
static const std::vector<Cfg> &cfgs() {
  static const std::vector<Cfg> c = {{{{0, 1, 3, 4}}}, {{{0, 1, 3}, {-1, 0, 0.5, 2}}}, {{{0, 2, 3}, {5, 6}, {1, 1.5, 4}}}};
  return c;
}
static const char *NM[] = {"y", "z", "x"};
static AxisCollection axes(const Cfg &c) {
  AxisCollection a;
  for (size_t d = 0; d < c.edges.size(); d++) a.AddAxis(BinAxis(NM[d], VD(c.edges[d].begin(), c.edges[d].end() - 1), VD(c.edges[d].begin() + 1, c.edges[d].end())));
  return a;
}
static size_t nb(const Cfg &c) { size_t n = 1; for (auto &e : c.edges) n *= e.size() - 1; return n; }
static size_t refFind(const Cfg &c, const VD &v) {
  size_t g = 0;
  for (size_t d = 0; d < v.size(); d++) {
    const VD &e = c.edges[d]; size_t n = e.size() - 1, b = 0;
    while (b + 1 < n && v[d] >= e[b + 1]) b++;
    g = g * n + b;
  }
  return g;
}
static VD centre(const Cfg &c, size_t g) {
  VD r(c.edges.size());
  for (size_t d = r.size(); d-- > 0;) { size_t n = c.edges[d].size() - 1, i = g % n; g /= n; r[d] = 0.5 * (c.edges[d][i] + c.edges[d][i + 1]); }
  return r;
}
static Histogram make(Histogram *, const AxisCollection &a) { return Histogram(a); }
static BinnedED make(BinnedED *, const AxisCollection &a) { BinnedED b("ed", a); std::vector<std::string> n = a.GetAxisNames(); b.SetObservables(n); return b; }
static bool fillEvent(Histogram &, const VD &, double) { return false; }
static bool fillEvent(BinnedED &b, const VD &v, double w) {
  // an event listing the observables in another order, with one more
  std::vector<std::string> names = {"q", NM[2], NM[1], NM[0]};
  VD d = {77, v.size() > 2 ? v[2] : 88, v.size() > 1 ? v[1] : 99, v[0]};
  Event e(d); e.SetObservableNames(&names);
  b.Fill(e, w);
  return true;
}
static bool fillMap(Histogram &h, const std::map<std::string, double> &m, double w) { h.Fill(m, w); return true; }
static bool fillMap(BinnedED &, const std::map<std::string, double> &, double) { return false; }
static void take(Histogram &h, const Histogram &o) { h = o; }
static void take(BinnedED &b, const BinnedED &o) { b.SetHistogram(o.GetHistogram()); }
static void start(Histogram &h, const AxisCollection &a) { Histogram n; n.SetAxes(a); h = n; }
static void start(BinnedED &b, const AxisCollection &a) { BinnedED n("ed", Histogram()); n.SetAxes(a); n.SetObservables(a.GetAxisNames()); b = n; }
static void partial(const Histogram &h, const Cfg &c, const VD &m, const std::string &who) {
  if (c.edges.size() != 1) { MC_CHECK(throws([&] { h.Integral(0., 1.); }), "bounded integral accepted in several dimensions", who); return; }
  size_t n = m.size();
  for (size_t i = 0; i < n; i++) for (size_t j = i; j < n; j++) {
    double s = 0; for (size_t k = i; k <= j; k++) s += m[k];
    double a = c.edges[0][i] + 0.25 * (c.edges[0][i + 1] - c.edges[0][i]), b = c.edges[0][j] + 0.75 * (c.edges[0][j + 1] - c.edges[0][j]);
    MC_CHECK(close(h.Integral(a, b), s), "bounded integral", who << " over [" << a << "," << b << "] is " << h.Integral(a, b) << " expected " << s);
    MC_CHECK(h.Integral(b, a) == 0 && h.Integral(a, a) == 0, "bounded integral of an empty range", who);
  }
  MC_CHECK(close(h.Integral(-100., 100.), h.Integral()), "bounded integral over everything", who);
}
static void partial(const BinnedED &, const Cfg &, const VD &, const std::string &) {}
static void prob(const Histogram &, const Cfg &, const VD &, const std::string &) {}
static void prob(const BinnedED &b, const Cfg &c, const VD &m, const std::string &who) {
  double s = 0; for (double x : m) s += x;
  if (!(std::fabs(s) > 1e-9) || std::isinf(s)) return;
  for (size_t g = 0; g < m.size(); g++) MC_CHECK(close(b.Probability(centre(c, g)), m[g] / s), "probability of a bin", who << " bin " << g << " gives " << b.Probability(centre(c, g)) << " expected " << m[g] / s);
  MC_CHECK(vclose(b.GetHistogram().GetBinContents(), m), "inner histogram", who);
}

template <class H> static void compare(const H &h, const Cfg &c, const VD &m, const std::string &who, const AxisCollection &ax) {
  MC_CHECK(h.GetNBins() == m.size() && (size_t)h.GetNDims() == c.edges.size(), "size", who);
  VD got = h.GetBinContents();
  MC_CHECK(vclose(got, m), "contents", who << " holds " << vstr(got) << " expected " << vstr(m));
  double s = 0;
  for (size_t i = 0; i < m.size(); i++) { MC_CHECK(close(h.GetBinContent(i), m[i]), "content of one bin", who << " bin " << i); s += m[i]; }
  MC_CHECK(close(h.Integral(), s), "integral", who << " integral " << h.Integral() << " expected " << s);
  MC_CHECK(h.GetAxes() == ax && h.GetAxes().GetAxisNames() == ax.GetAxisNames(), "axes changed", who);
  if (close(s, 1)) {
    VD me = h.Means(), va = h.Variances();
    MC_CHECK(me.size() == c.edges.size() && va.size() == c.edges.size(), "moments size", who);
    for (size_t d = 0; d < me.size(); d++) {
      double e1 = 0, e2 = 0;
      for (size_t g = 0; g < m.size(); g++) { double x = centre(c, g)[d]; e1 += m[g] * x; e2 += m[g] * x * x; }
      MC_CHECK(close(me[d], e1, 1e-8, 1e-9), "mean", who << " mean " << d << " is " << me[d] << " expected " << e1);
      MC_CHECK(close(va[d], e2 - e1 * e1, 1e-8, 1e-7), "variance", who << " variance " << d << " is " << va[d] << " expected " << e2 - e1 * e1);
    }
  }
  prob(h, c, m, who);
}

template <class H> static void run(const char *kind) {
  const Cfg &c = pick(cfgs(), "dims");
  size_t D = c.edges.size(), N = nb(c);
  AxisCollection ax = axes(c);
  Cfg c2 = c; c2.edges[D - 1].back() += 1;
  H h[2] = {make((H *)0, ax), make((H *)0, ax)};
  H other = make((H *)0, axes(c2));
  VD m[2] = {VD(N, 0), VD(N, 0)}, mo(N, 0);
  for (size_t i = 0; i < N; i++) { mo[i] = 1 + i; m[1][i] = i % 3 ? 0.5 * i : 2; }
  other.SetBinContents(mo);
  h[1].SetBinContents(m[1]);
  compare(h[0], c, m[0], "a new distribution", ax);
  int depth = tier(D == 3 ? 3 : 4, D == 3 ? 4 : 5);
  VD pLow(D), pIn(D), pHigh(D);
  for (size_t d = 0; d < D; d++) { pLow[d] = -50; pIn[d] = c.edges[d][c.edges[d].size() > 2 ? 1 : 0]; pHigh[d] = 50 + d; }
  pLow[D - 1] = pIn[D - 1];
  for (int s = 0; s < depth; s++) {
    int o = choose(24, "op");
    H &A = h[0]; VD &M = m[0];
    switch (o) {
      case 0: MC_OP(kind << " fill " << vstr(pLow)); A.Fill(pLow); M[refFind(c, pLow)] += 1; break;
      case 1: MC_OP(kind << " fill " << vstr(pIn) << " weight 0.25"); A.Fill(pIn, 0.25); M[refFind(c, pIn)] += 0.25; break;
      case 2: MC_OP(kind << " fill " << vstr(pHigh) << " weight -2"); A.Fill(pHigh, -2); M[refFind(c, pHigh)] -= 2; break;
      case 3: { // by name, from a dictionary with other entries
        std::map<std::string, double> v{{"a", 9}, {"zz", 4}, {"y0", 3}};
        for (size_t d = 0; d < D; d++) v[NM[d]] = pIn[d];
        MC_OP(kind << " fill by names " << mstr(v));
        if (fillMap(A, v, 3)) M[refFind(c, pIn)] += 3; else if (fillEvent(A, pIn, 3)) M[refFind(c, pIn)] += 3;
        v.erase(NM[D - 1]);
        bool refused = throws([&] { if (!fillMap(A, v, 1)) { VD e(D + 1, 0); A.Fill(e); } });
        MC_CHECK(refused, "incomplete fill accepted", kind);
        break; }
      case 4: MC_OP(kind << " fill one number");
        if (D == 1) { A.Fill(3.5, 2); M[2] += 2; A.Fill(1.0); M[1] += 1; }
        else MC_CHECK(throws([&] { A.Fill(3.5, 2); }), "fill of wrong dimension accepted", kind);
        break;
      case 5: { VD v(D + 1, 0); MC_OP(kind << " fill with too many values"); MC_CHECK(throws([&] { A.Fill(v); }), "fill of wrong dimension accepted", kind); 
        MC_CHECK(throws([&] { A.FindBin(v); }), "lookup of wrong dimension accepted", kind);
  for (size_t bad : {N + 1, N + 7, (size_t)-1})
    MC_CHECK(throws([&] { A.GetBinContent(bad); }) && throws([&] { A.SetBinContent(bad, 1); }) && throws([&] { A.AddBinContent(bad, 1); }), "bin far out of range accepted", kind << " bin " << bad);
  MC_CHECK(throws([&] { A.GetBinContent(N); }) && throws([&] { A.AddBinContent(N, 1); }), "bin just past the end accepted", kind);
        break; }
      case 6: MC_OP(kind << " set last bin 1.5"); A.SetBinContent(N - 1, 1.5); M[N - 1] = 1.5; break;
      case 7: MC_OP(kind << " set first bin 0"); A.SetBinContent(0, 0); M[0] = 0; break;
      case 8: MC_OP(kind << " add 4 to bin " << N / 2); A.AddBinContent(N / 2, 4); M[N / 2] += 4; break;
      case 9: MC_OP(kind << " set contents"); for (size_t i = 0; i < N; i++) M[i] = 3.0 - i; A.SetBinContents(M); break;
      case 10: { MC_OP(kind << " set contents of wrong size"); VD w(N + 1, 1), u(N - 1, 1); MC_CHECK(throws([&] { A.SetBinContents(w); }) && throws([&] { A.SetBinContents(u); }), "contents of wrong size accepted", kind); break; }
      case 11: MC_OP(kind << " scale by -0.5"); A.Scale(-0.5); for (double &x : M) x *= -0.5; break;
      case 12: { double t = 0; for (double x : M) t += x; if (!(std::fabs(t) > 1e-9) || std::isinf(t)) prune();
        MC_OP(kind << " normalise"); A.Normalise(); for (double &x : M) x /= t;
        MC_CHECK(close(A.Integral(), 1, 1e-7), "integral after normalising", A.Integral()); break; }
      case 13: MC_OP(kind << " empty"); A.Empty(); M.assign(N, 0); break;
      case 14: MC_OP(kind << " add other"); A.Add(h[1]); for (size_t i = 0; i < N; i++) M[i] += m[1][i]; break;
      case 15: MC_OP(kind << " add other with weight -2"); A.Add(h[1], -2); for (size_t i = 0; i < N; i++) M[i] -= 2 * m[1][i]; break;
      case 16: MC_OP(kind << " multiply by other"); A.Multiply(h[1]); for (size_t i = 0; i < N; i++) M[i] *= m[1][i]; break;
      case 17: MC_OP(kind << " divide by other"); A.Divide(h[1]); for (size_t i = 0; i < N; i++) M[i] /= m[1][i]; break;
      case 18: MC_OP(kind << " add itself"); A.Add(A); for (size_t i = 0; i < N; i++) M[i] *= 2; break;
      case 19: MC_OP(kind << " arithmetic with different axes");
        MC_CHECK(throws([&] { A.Add(other); }) && throws([&] { A.Multiply(other); }) && throws([&] { A.Divide(other); }), "arithmetic between different axes accepted", kind);
        compare(other, c2, mo, "the refused operand", other.GetAxes());
        break;
      case 20: MC_OP(kind << " exchange with other"); { H t(A); A = h[1]; h[1] = t; std::swap(m[0], m[1]); } break;
      case 22: MC_OP(kind << " takes the contents of the other"); take(A, h[1]); M = m[1]; break;
      case 23: MC_OP(kind << " starts afresh"); start(A, ax); M.assign(N, 0); break;
      case 21: MC_OP(kind << " pad empty bins"); A.AddPadding(0.125); for (double &x : M) if (x == 0) x = 0.125; break;
    }
    if (!fresh()) continue;
    compare(h[0], c, m[0], "the distribution", ax);
    compare(h[1], c, m[1], "the other operand", ax);
    state(Hash().s(kind).b(D).vd(m[0]).vd(m[1]).h);
  }
  partial(h[0], c, m[0], "the distribution");
  // every lookup used by the fills
  for (size_t g = 0; g < N; g++) { MC_CHECK(h[0].FindBin(centre(c, g)) == g && h[0].FlattenIndices(h[0].UnpackIndices(g)) == g, "lookup", kind << " bin " << g); }
}
MC_SCENARIO(histogram) { run<Histogram>("histogram"); }
MC_SCENARIO(binned_distribution) { run<BinnedED>("binned distribution"); }

// writing to the bin just past the end
MC_SCENARIO(set_past_end) {
  const Cfg &c = pick(cfgs(), "dims");
  bool ed = flip("binned distribution");
  size_t N = nb(c);
  MC_OP("write bin " << N << " of " << N << (ed ? " through a binned distribution" : ""));
  std::string out;
  int r = isolated([&]() -> std::string {
    Histogram h(axes(c)); BinnedED b("b", axes(c));
    if (ed) b.SetBinContent(N, 1); else h.SetBinContent(N, 1);
    return "returned";
  }, &out);
  state(Hash().s("past").b(N).b(r).h);
  MC_CHECK(r == 1, "writing the bin just past the end is not refused", (r == 0 ? "accepted silently" : "wrote outside its memory"));
}

// given other axes: the number of bins, the contents and the sums over them stay in step
MC_SCENARIO(other_axes) {
  Histogram h; MC_CHECK(h.GetNBins() == 0 && h.GetBinContents().empty(), "an unbinned histogram has bins", ""); int steps = tier(3, 4); VD m; const Cfg *c = nullptr;
  for (int s = 0; s < steps; s++) {
    const Cfg &n = pick(cfgs(), "axes"); size_t N = nb(n); h.SetAxes(axes(n)); c = &n; MC_OP("axes with " << N << " bins"); MC_CHECK(h.GetNBins() == N && h.GetBinContents().size() == N && h.GetNDims() == n.edges.size(), "number of bins with other axes", h.GetBinContents().size() << " contents for " << N << " bins");
    int act = choose(4, "act"); if (act == 1) h.Empty(); if (act == 2) h.SetBinContents(VD(N, 0.5 + s)); if (act == 3) { h.Empty(); h.Fill(centre(n, N - 1), 3); } m = h.GetBinContents(); if (act == 1) MC_CHECK(m == VD(N, 0), "emptied", ""); if (act == 3) { VD e(N, 0); e[N - 1] = 3; MC_CHECK(m == e, "filled after other axes", vstr(m)); }
    double t = 0; for (double x : m) t += x; MC_CHECK(close(h.Integral(), t), "integral with other axes", h.Integral() << " expected " << t); for (size_t i = 0; i < N; i++) MC_CHECK(close(h.GetBinContent(i), m[i]), "content with other axes", i);
    state(Hash().b(N).vd(m).h); }
  h.Empty(); compare(h, *c, VD(nb(*c), 0), "given other axes", axes(*c));
}

// sizes beyond any table, buffer or narrow counter; every bin checked after every one of the operations
MC_SCENARIO(many) {
  static const std::vector<std::vector<int>> shapes = {{10}, {33}, {100}, {129}, {257}, {1000}, {4097}, {65537}, {12, 11}, {1, 300}, {300, 1}, {33, 33}, {257, 3}, {2, 257, 2}, {11, 12, 13}, {17, 1, 17}};
  int si = choose(tier(12, (int)shapes.size()), "shape"); auto sh = shapes[(si * 5 + 3) % shapes.size()];
  Cfg c;
  for (size_t d = 0; d < sh.size(); d++) { VD e{-3.0 + d}; for (int i = 0; i < sh[d]; i++) e.push_back(e.back() + 0.25 * (1 + (i * 7 + d) % 3)); c.edges.push_back(e); }
  AxisCollection a = axes(c); Histogram h(a); size_t n = nb(c);
  MC_CHECK(h.GetNBins() == n && (int)h.GetNDims() == (int)sh.size(), "many: size", h.GetNBins() << " expected " << n);
  VD m(n, 0.); bool whole = true; double scale = 1;
  auto all = [&](const char *w) {
    VD g = h.GetBinContents(); MC_CHECK(g.size() == n, "many: size", w);
    for (size_t i = 0; i < n; i++) MC_CHECK(close(g[i], m[i], 1e-10, 1e-12 * scale) && close(h.GetBinContent(i), m[i], 1e-10, 1e-12 * scale), "many: contents", w << ": bin " << i << " of " << n << " holds " << g[i] << " expected " << m[i]);
    double s = 0; for (double x : m) s += x;
    MC_CHECK(close(h.Integral(), s, 1e-9, 1e-9 * scale), "many: integral", w << " integral " << h.Integral() << " expected " << s);
    state(Hash().d(n).vd(m).h);
  };
  (void)whole;
  // one entry in each bin, weights that distinguish them; through value, vector and map
  for (size_t g = 0; g < n; g++) {
    VD p = centre(c, g); double w = 1 + (g * 13 % 31) * 0.5;
    if (g % 3 == 0) h.Fill(p, w); else if (g % 3 == 1) { std::map<std::string, double> mp; for (size_t d = 0; d < p.size(); d++) mp[NM[d]] = p[d]; h.Fill(mp, w); } else if (p.size() == 1) h.Fill(p[0], w); else h.Fill(p, w);
    m[g] += w;
    MC_CHECK(h.FindBin(p) == g, "many: bin of its centre", g << " found in " << h.FindBin(p));
    auto u = h.UnpackIndices(g); MC_CHECK(h.FlattenIndices(u) == g, "many: indices", g);
    for (size_t d = 0; d < p.size(); d++) MC_CHECK(close(h.GetBinCentre(g, d), p[d]) && u[d] < (size_t)sh[d], "many: centre", g);
  }
  all("filled");
  // values beyond both ends go to the first and last bins
  VD lo(sh.size(), -1e6), hi(sh.size(), 1e6); h.Fill(lo, 2); h.Fill(hi, 3); m[0] += 2; m[n - 1] += 3; all("overflow");
  // the same bin many times
  VD mid = centre(c, n / 2); for (int i = 0; i < 300; i++) h.Fill(mid); m[n / 2] += 300; all("same bin");
  int op = choose(7, "op"); Histogram o(a); VD om(n); for (size_t g = 0; g < n; g++) { om[g] = 0.5 + (g * 29 % 17); o.SetBinContent(g, om[g]); }
  MC_OP("shape " << vstr(sh) << " op " << op);
  if (op == 0) { h.Add(o, -0.5); for (size_t g = 0; g < n; g++) m[g] -= 0.5 * om[g]; }
  if (op == 1) { h.Multiply(o); for (size_t g = 0; g < n; g++) m[g] *= om[g]; }
  if (op == 2) { h.Divide(o); for (size_t g = 0; g < n; g++) m[g] /= om[g]; }
  if (op == 3) { h.Scale(2.5); for (double &x : m) x *= 2.5; }
  if (op == 4) { h.Normalise(); double s = 0; for (double x : m) s += x; for (double &x : m) x /= s; }
  if (op == 5) { h.AddPadding(1.0); }
  if (op == 6) { for (size_t g = 0; g < n; g++) { h.AddBinContent(g, om[g]); m[g] += om[g]; } }
  scale = 50; all("after op");
  VD og = o.GetBinContents(); for (size_t g = 0; g < n; g++) MC_CHECK(og[g] == om[g], "many: operand changed", g);
  h.Normalise(); double s = 0; for (double x : m) s += x; for (double &x : m) x /= s; scale = 1; all("normalised");
  VD me = h.Means(), va = h.Variances();
  for (size_t d = 0; d < sh.size(); d++) {
    double e1 = 0, e2 = 0; for (size_t g = 0; g < n; g++) { double x = centre(c, g)[d]; e1 += m[g] * x; } for (size_t g = 0; g < n; g++) { double x = centre(c, g)[d] - e1; e2 += m[g] * x * x; }
    double span = c.edges[d].back() - c.edges[d][0];
    MC_CHECK(close(me[d], e1, 1e-8, 1e-9 * span) && close(va[d], e2, 1e-6, 1e-9 * span * span), "many: moments", d << " mean " << me[d] << " expected " << e1 << " variance " << va[d] << " expected " << e2);
  }
  if (sh.size() == 1) for (size_t k = 1; k < n; k += 1 + n / 40) { double want = 0; for (size_t i = 0; i <= k; i++) want += m[i]; MC_CHECK(close(h.Integral(c.edges[0][0] + 0.01, c.edges[0][k + 1] - 0.01), want, 1e-9, 1e-12), "many: bounded integral", k); }
  Histogram cp = h; h.Empty(); VD keep = m; m.assign(n, 0); all("emptied"); VD cg = cp.GetBinContents();
  for (size_t g = 0; g < n; g++) MC_CHECK(close(cg[g], keep[g]), "many: copy", g);
}
