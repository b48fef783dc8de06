// C12 buffer bins: shrinking keeps the fit region and accounts for the rest
#include "mc.h"
#include <BinnedEDShrinker.h>
#include <algorithm>
using namespace mc;
typedef std::vector<double> VD;
typedef std::vector<std::string> VN;

struct Ax { std::string name; VD edges; bool uniform; };
static Ax mk(int which, int n) {
  Ax a; a.name = std::string(1, "xyz"[which]); a.uniform = which == 0;
  double e = which == 0 ? -1 : which == 1 ? 0 : 5;
  for (int i = 0; i <= n; i++) { a.edges.push_back(e); e += which == 0 ? 0.5 : which == 1 ? 1 + 0.25 * i : 0.125 * (n - i + 1); }
  return a;
}
static BinAxis bin(const Ax &a) {
  if (a.uniform) return BinAxis(a.name, a.edges.front(), a.edges.back(), a.edges.size() - 1, "L" + a.name);
  return BinAxis(a.name, VD(a.edges.begin(), a.edges.end() - 1), VD(a.edges.begin() + 1, a.edges.end()), "L" + a.name);
}
static BinnedED mkDist(const std::vector<Ax> &ax, const std::string &name, double unit = 1) {
  AxisCollection c; VN o; for (auto &a : ax) { c.AddAxis(bin(a)); o.push_back("o" + a.name); }
  BinnedED d(name, c); d.SetObservables(o);
  for (size_t i = 0; i < d.GetNBins(); i++) d.SetBinContent(i, i % 4 == 3 ? 0 : i % 5 == 1 ? -2.5 - (double)i : 1 + (double)(i * i) + 0.125 * i), d.SetBinContent(i, d.GetBinContent(i) * unit);
  return d;
}
typedef std::map<std::string, std::pair<unsigned, unsigned>> Buf;
static bool tooBig(const std::vector<Ax> &ax, const Buf &b) { for (auto &a : ax) if (b.count(a.name)) { auto p = b.at(a.name); if (p.first + p.second > 0 && p.first + p.second >= a.edges.size() - 1) return true; } return false; }
static void compare(const BinnedED &out, const BinnedED &in, const std::vector<Ax> &ax, const Buf &b, bool over) {
  size_t N = 1; std::vector<size_t> lo, nn, on;
  for (auto &a : ax) { auto p = b.count(a.name) ? b.at(a.name) : std::make_pair(0u, 0u); lo.push_back(p.first); on.push_back(a.edges.size() - 1); nn.push_back(a.edges.size() - 1 - p.first - p.second); N *= nn.back(); }
  MC_CHECK(out.GetNBins() == N && out.GetNDims() == ax.size(), "shrink: shape", "got " << out.GetNBins() << " bins, expected " << N);
  for (size_t d = 0; d < ax.size(); d++) {
    const BinAxis &q = out.GetAxes().GetAxis(d);
    MC_CHECK(q.GetName() == ax[d].name && q.GetLatexName() == "L" + ax[d].name && q.GetNBins() == nn[d], "shrink: axis names", "");
    for (size_t i = 0; i < nn[d]; i++) MC_CHECK(close(q.GetBinLowEdge(i), ax[d].edges[lo[d] + i], 1e-12, 1e-12) && close(q.GetBinHighEdge(i), ax[d].edges[lo[d] + i + 1], 1e-12, 1e-12), "shrink: edges", "axis " << d << " bin " << i);
  }
  MC_CHECK(out.GetObservables() == in.GetObservables(), "shrink: observables", "");
  VD want(N, 0); double total = 0;
  for (size_t i = 0; i < in.GetNBins(); i++) {
    size_t r = i, to = 0; std::vector<size_t> ix(ax.size()); for (int d = (int)ax.size() - 1; d >= 0; d--) { ix[d] = r % on[d]; r /= on[d]; }
    bool out_ = false;
    for (size_t d = 0; d < ax.size(); d++) { long k = (long)ix[d] - (long)lo[d]; if (k < 0) { k = 0; out_ = true; } if (k >= (long)nn[d]) { k = nn[d] - 1; out_ = true; } to = to * nn[d] + k; }
    total += in.GetBinContent(i);
    if (!out_ || over) want[to] += in.GetBinContent(i);
  }
  double big = 0; for (double x : in.GetBinContents()) big = std::max(big, std::fabs(x));
  MC_CHECK(vclose(out.GetBinContents(), want, 1e-12, 1e-12 * big), "shrink: contents", "got " << vstr(out.GetBinContents()) << " expected " << vstr(want));
  if (over) MC_CHECK(close(out.Integral(), total, 1e-12, 1e-12 * big), "shrink: integral lost", "");
  state(Hash().vd(want).b(over).h);
}

MC_SCENARIO_SPLIT(configurations, 3) {
  int nd = 1 + choose(3, "dimensions"); std::vector<Ax> ax; Buf b; bool over = flip("overflow");
  int mx = nd == 1 ? tier(5, 7) : nd == 2 ? tier(4, 5) : 3;
  std::vector<int> which = {0, 1, 2};
  for (int d = 0; d < nd; d++) { int k = choose((int)which.size(), "axis"); ax.push_back(mk(which[k], 1 + choose(mx, "bins"))); which.erase(which.begin() + k); }
  BinnedEDShrinker s; s.SetUsingOverflows(over);
  for (auto &a : ax) { if (nd > 1 && flip("no buffer")) continue; int n = a.edges.size() - 1; unsigned lo = choose(n + 1, "lower"), hi = choose(n + 1 - (nd == 3 ? std::min(1, n) : 0), "upper"); b[a.name] = {lo, hi}; s.SetBuffer(a.name, lo, hi); }
  if (nd < 3 && flip("buffer on an axis that is not there")) { b["q"] = {2, 1}; s.SetBuffer("q", 2, 1); }
  double unit = nd < 3 ? pick(VD{1, 1e-14, 1e12}, "unit of the contents") : 1; BinnedED d = mkDist(ax, "d", unit); VD before = d.GetBinContents();
  std::ostringstream w; for (auto &x : b) w << " " << x.first << ":" << x.second.first << "," << x.second.second; MC_OP("dims " << nd << " bins " << d.GetNBins() << " buffers" << w.str() << " overflow " << over);
  for (auto &x : b) MC_CHECK(s.GetBuffer(x.first) == x.second, "query: buffer", "");
  MC_CHECK(s.GetBuffers() == b && s.GetUsingOverflows() == over, "query: buffers", "");
  MC_CHECK(throws([&] { s.GetBuffer("zz"); }), "query: unknown axis answered", "");
  if (tooBig(ax, b)) { MC_CHECK(throws([&] { s.SetBinMap(d); s.ShrinkDist(d); }), "shrink: buffers that leave no bin accepted", ""); return; }
  s.SetBinMap(d);
  BinnedED o = s.ShrinkDist(d);
  compare(o, d, ax, b, over);
  MC_CHECK(d.GetBinContents() == before, "shrink: changed its input", "");
  if (nd == 1) { auto p = b.count(ax[0].name) ? b[ax[0].name] : std::make_pair(0u, 0u); BinAxis q = s.ShrinkAxis(bin(ax[0]), p.first, p.second); MC_CHECK(q == o.GetAxes().GetAxis(0), "shrink: axis alone differs", ""); }
}

MC_SCENARIO_SPLIT(histories, 4) {
  std::vector<std::vector<Ax>> dists = {{mk(0, 3)}, {mk(1, 2), mk(0, 4)}, {mk(0, 4), mk(1, 3)}};
  std::vector<BinnedED> ds; for (auto &d : dists) ds.push_back(mkDist(d, "d"));
  BinnedEDShrinker s; Buf b; bool over = false; int mapped = -1; bool valid = false;
  static const std::vector<std::pair<unsigned, unsigned>> bufs = {{0, 0}, {1, 0}, {0, 2}, {1, 1}, {2, 3}};
  int n = tier(5, 6);
  for (int k = 0; k < n; k++) {
    switch (choose(4, "op")) {
      case 0: { std::string a = flip("axis y") ? "y" : "x"; auto &p = bufs[choose(a == "x" ? 5 : 3, "buffer")]; MC_OP("buffer " << a << " " << p.first << "," << p.second); s.SetBuffer(a, p.first, p.second); b[a] = p; valid = false; break; }
      case 1: over = !over; MC_OP("overflow " << over); s.SetUsingOverflows(over); valid = false; break;
      case 2: { int d = choose(3, "map"); MC_OP("map " << d); bool bad = tooBig(dists[d], b); bool t = throws([&] { s.SetBinMap(ds[d]); }); if (fresh()) MC_CHECK(t == bad, bad ? "map: buffers that leave no bin accepted" : "map: refused", ""); mapped = d; valid = !bad; break; }
      case 3: { int d = choose(3, "shrink"); MC_OP("shrink " << d);
        if (b.empty()) { if (fresh()) compare(s.ShrinkDist(ds[d]), ds[d], dists[d], b, over); break; }
        if (mapped >= 0 && valid && mapped == d) { if (fresh()) compare(s.ShrinkDist(ds[d]), ds[d], dists[d], b, over); }
        else if (mapped < 0 || ds[mapped].GetNBins() != ds[d].GetNBins()) { if (fresh()) MC_CHECK(throws([&] { s.ShrinkDist(ds[d]); }), "shrink: accepted a binning it was not mapped for", ""); }
        break; }
    }
  }
}

// long axes, wide buffers and many axes
MC_SCENARIO(many) {
  static const std::vector<std::vector<int>> shapes = {{40}, {300}, {1025}, {257, 5}, {5, 257}, {33, 34}, {12, 13, 14}, {4, 4, 4, 4}, {3, 4, 5, 3, 4}};
  auto sh = shapes[choose((int)shapes.size(), "shape")]; bool over = flip("overflow"); std::vector<Ax> ax; Buf b; BinnedEDShrinker s; s.SetUsingOverflows(over); int pat = choose(6, "buffers");
  for (size_t d = 0; d < sh.size(); d++) { Ax a; a.name = "n" + std::to_string(11 - d); a.uniform = d % 2 == 0; double e = -1. + d; for (int i = 0; i <= sh[d]; i++) { a.edges.push_back(e); e += a.uniform ? 0.5 : 0.25 + 0.125 * (i % 3); } ax.push_back(a); unsigned n = sh[d], lo = 0, hi = 0; switch (pat) { case 0: lo = n - 1; break; case 1: hi = n - 1; break; case 2: lo = n / 2; hi = n / 3; break; case 3: lo = n / 4; hi = n - 1 - lo; break; case 4: lo = d % 2; hi = (d + 1) % 2; break; case 5: lo = (d + 1) % 3 == 0 ? 0 : n / 3; hi = 1; break; } if (lo + hi >= n) { lo = 0; hi = n > 1; } b[a.name] = {lo, hi}; s.SetBuffer(a.name, lo, hi); }
  BinnedED d = mkDist(ax, "d"); VD before = d.GetBinContents(); for (size_t i = 0; i < before.size(); i++) d.SetBinContent(i, before[i] = (double)(1 + i * 37 % 1009) * (i % 5 == 2 ? -0.5 : 1)); MC_OP("shape " << vstr(sh) << " buffers " << pat << " overflow " << over);
  s.SetBinMap(d); BinnedED o = s.ShrinkDist(d); compare(o, d, ax, b, over); MC_CHECK(d.GetBinContents() == before, "shrink: changed its input", "");
}
