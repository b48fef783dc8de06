// C04 lattice interpolation
#include "mc.h"
#include <Histogram.h>
#include <ShapeInterpConstraint.h>
#include <ConstraintManager.h>
#include <cmath>
#include <limits>
#include <memory>
using namespace mc;
typedef std::vector<double> VD;
static const char *NM[] = {"q", "r", "p", "a"};

MC_SCENARIO_SPLIT(interpolate, 4) {
  int D = 1 + choose(4, "dims"); int wide = D > 2 ? choose(2, "variable") : 0;
  std::vector<VD> e(D), cen(D);
  AxisCollection ax;
  for (int d = 0; d < D; d++) {
    int n = D == 4 ? 2 + choose(tier(2, 3), "bins") : 1 + choose(D == 1 ? 5 : D == 2 ? tier(4, 5) : tier(3, 4), "bins"), var = D < 3 ? choose(2, "variable") : (d + wide) % 2;
    double x = -1 + 1.5 * d; e[d].push_back(x);
    for (int i = 0; i < n; i++) { x += var ? (i % 2 ? 2 : 0.5) : 1; e[d].push_back(x); }
    for (int i = 0; i < n; i++) cen[d].push_back(0.5 * (e[d][i] + e[d][i + 1]));
    ax.AddAxis(BinAxis(NM[d], VD(e[d].begin(), e[d].end() - 1), VD(e[d].begin() + 1, e[d].end())));
  }
  Histogram h(ax);
  VD c(h.GetNBins());
  for (size_t g = 0; g < c.size(); g++) c[g] = 2 + 1.25 * g + 0.5 * g * g - (g % 4 == 1 ? 9 : 0);
  h.SetBinContents(c);
  // the sample point: per axis one of below / exact centres / between / outside
  std::vector<double> v(D);
  std::vector<int> cell(D); VD frac(D);
  bool inside = true;
  double inf = std::numeric_limits<double>::infinity();
  for (int d = 0; d < D; d++) {
    int n = (int)cen[d].size();
    // kinds: 0..n-1 centres; then per gap 2 fractions; then outside positions
    int gaps = n - 1, per = D == 4 ? 1 : 2, outs = D == 1 ? 9 : D == 2 ? 5 : D == 3 ? 3 : 2;
    int k = choose(n + per * gaps + outs, "where");
    if (k < n) { v[d] = cen[d][k]; cell[d] = std::min(k, n - 2); frac[d] = k > n - 2 ? 1 : 0; }
    else if (k < n + per * gaps) { int g = (k - n) / per; double f = (k - n) % per || (per == 1 && (d + g) % 2) ? 0.75 : 0.3125; v[d] = cen[d][g] + f * (cen[d][g + 1] - cen[d][g]); cell[d] = g; frac[d] = f; }
    else {
      inside = false;
      double lo = cen[d][0], hi = cen[d][n - 1];
      VD o = {0.5 * (lo + e[d][0]), 0.5 * (hi + e[d][n]), e[d][0] - 1, e[d][n], e[d][n] + 7, e[d][0], std::nextafter(lo, -inf), std::nextafter(hi, inf), std::nan("")};
      v[d] = o[(k - n - per * gaps) * (D == 4 ? 3 : 1)];
    }
    if (n == 1) inside = false;
  }
  ShapeInterpConstraint s(h);
  ParameterDict p{{"unrelated", 4.5}};
  for (int d = 0; d < D; d++) p[NM[d]] = v[d];
  MC_OP(D << "D lattice of " << c.size() << " bins at " << vstr(v));
  if (!inside) {
    MC_CHECK(throws([&] { s.Evaluate(p); }), "interpolation outside the lattice is not refused", "at " << vstr(v));
    std::vector<VD> locs;
    MC_CHECK(throws([&] { h.GetLatticePointValues(v, locs); }), "lattice points outside the lattice are not refused", "at " << vstr(v));
    state(Hash().s("out").vd(v).h);
    return;
  }
  // reference: multilinear blend
  double want = 0;
  for (int m = 0; m < (1 << D); m++) {
    double w = 1; size_t g = 0;
    for (int d = 0; d < D; d++) { int b = m >> d & 1; w *= b ? frac[d] : 1 - frac[d]; g = g * cen[d].size() + cell[d] + b; }
    want += w * c[g];
  }
  double got = s.Evaluate(p);
  MC_CHECK(close(got, want), "interpolated value", "at " << vstr(v) << " got " << got << " expected " << want);
  ConstraintManager cm;
  cm.SetConstraint("lattice", h);
  MC_CHECK(close(cm.Evaluate(p), want), "interpolated value through the constraint manager", "at " << vstr(v) << " got " << cm.Evaluate(p));
  // the lattice points: surrounding centres with their contents, in the documented order
  std::vector<VD> locs;
  VD vals = h.GetLatticePointValues(v, locs);
  MC_CHECK(vals.size() == (1u << D) && locs.size() == vals.size(), "lattice points: number", vals.size());
  for (size_t m = 0; m < vals.size(); m++) {
    MC_CHECK(locs[m].size() == (size_t)D, "lattice points: dimension", "");
    size_t g = h.FindBin(locs[m]);
    MC_CHECK(close(vals[m], c[g]), "lattice points: value at location", "point " << m << " value " << vals[m] << " content " << c[g]);
    for (int d = 0; d < D; d++) {
      bool top = m >> d & 1;
      MC_CHECK(top ? locs[m][d] >= v[d] - 1e-12 : locs[m][d] <= v[d] + 1e-12, "lattice points: do not surround", "point " << m << " at " << vstr(locs[m]) << " for " << vstr(v));
      bool isCentre = false; for (double x : cen[d]) isCentre = isCentre || close(x, locs[m][d]);
      MC_CHECK(isCentre, "lattice points: not bin centres", vstr(locs[m]));
      MC_CHECK(!close(locs[m][d], locs[m ^ (1u << d)][d]), "lattice points: degenerate", vstr(locs[m]));
    }
  }
  for (int d = 0; d < D; d++) { ParameterDict q = p; q.erase(NM[d]); MC_CHECK(throws([&] { s.Evaluate(q); }), "interpolation with a missing parameter accepted", NM[d]); }
  MC_CHECK(vclose(h.GetBinContents(), c), "interpolation changed the histogram", "");
  state(Hash().s("in").vd(v).b(c.size()).h);
}

// long lattices, and lattices of many parameters
MC_SCENARIO_SPLIT(many, 2) {
  static const std::vector<std::vector<int>> SZ = {{300}, {40, 33}, {9, 2, 11}, {3, 2, 4, 2, 3}, {2, 3, 2, 2, 3, 2}, {2, 2, 2, 2, 2, 2, 2, 2}, {70, 70}};
  std::vector<int> sz = SZ[choose((int)SZ.size(), "lattice")]; int D = sz.size(); bool var = flip("variable"), reverse = flip("names out of order");
  AxisCollection ax; std::vector<VD> cen(D); std::vector<std::string> nm; size_t tot = 1;
  for (int d = 0; d < D; d++) { nm.push_back("n" + std::to_string(reverse ? 12 - d : 8 + d)); VD lo, hi; double x = -1 + d; for (int i = 0; i < sz[d]; i++) { double w = var ? (i % 3 == 1 ? 2 : 0.75) : 1; lo.push_back(x); x += w; hi.push_back(x); cen[d].push_back(lo[i] + w / 2); } if (var) ax.AddAxis(BinAxis(nm[d], lo, hi)); else ax.AddAxis(BinAxis(nm[d], lo[0], hi.back(), sz[d])); tot *= sz[d]; }
  Histogram h(ax); VD c(tot); for (size_t g = 0; g < tot; g++) c[g] = 2 + (g * 37 % 101) * 0.25 + (g % 4 == 1 ? -9 : 0); h.SetBinContents(c); ShapeInterpConstraint s(h);
  int points = D == 1 ? 299 * 3 + 1 : 160, p0 = choose(4, "quarter");
  for (int q = p0; q < points; q += 4) {
    std::vector<int> cell(D); VD fr(D), v(D); ParameterDict p; for (int d = 0; d < D; d++) { int k = D == 1 ? q / 3 : (q * (d + 1) * 7 + d * 3 + q / 5) % (sz[d] - 1); double f = D == 1 ? (q % 3) * 0.4375 : ((q + d) % 5) * 0.21875; if (k > sz[d] - 2) { k = sz[d] - 2; f = 1; } cell[d] = k; fr[d] = f; v[d] = cen[d][k] + f * (cen[d][k + 1] - cen[d][k]); p[nm[d]] = v[d]; }
    double want = 0; for (int m = 0; m < (1 << D); m++) { double w = 1; size_t g = 0; for (int d = 0; d < D; d++) { int b = m >> d & 1; w *= b ? fr[d] : 1 - fr[d]; g = g * sz[d] + cell[d] + b; } want += w * c[g]; }
    MC_CHECK(close(s.Evaluate(p), want, 1e-9, 1e-9), "interpolated value (many)", "at " << vstr(v) << " got " << s.Evaluate(p) << " expected " << want);
    std::vector<VD> locs; VD vals = h.GetLatticePointValues(v, locs); MC_CHECK(vals.size() == (1u << D), "lattice points: number (many)", vals.size()); double worst = 0; for (size_t m = 0; m < vals.size(); m++) worst = std::max(worst, std::fabs(vals[m] - c[h.FindBin(locs[m])])); MC_CHECK(worst == 0, "lattice points: value at location (many)", worst);
  }
  for (int d = 0; d < D; d++) for (int side = 0; side < 2; side++) { ParameterDict p; for (int e = 0; e < D; e++) p[nm[e]] = cen[e][0] + 0.125; p[nm[d]] = side ? cen[d].back() + 0.125 : cen[d][0] - 0.125; MC_CHECK(throws([&] { s.Evaluate(p); }), "interpolation outside the lattice is not refused (many)", nm[d]); }
  state(Hash().b(tot).b(D).d(var).b(p0).h);
}

// one lattice asked again and again, copied, given to managers, replaced
MC_SCENARIO_SPLIT(histories, 3) {
  int D = 1 + choose(2, "dims"), depth = tier(4, 5);
  struct L { std::vector<VD> e, cen; VD c; Histogram h; };
  auto mk = [&](int variant) { L l; l.e.resize(D); l.cen.resize(D); AxisCollection ax; size_t tot = 1; for (int d = 0; d < D; d++) { double x = variant == 1 ? -0.5 : -1; l.e[d].push_back(x); int n = D == 1 ? 4 : 3; for (int i = 0; i < n; i++) { x += variant == 2 ? (i % 2 ? 1.5 : 0.5) : 1; l.e[d].push_back(x); } for (int i = 0; i < n; i++) l.cen[d].push_back(0.5 * (l.e[d][i] + l.e[d][i + 1])); ax.AddAxis(BinAxis(NM[d], VD(l.e[d].begin(), l.e[d].end() - 1), VD(l.e[d].begin() + 1, l.e[d].end()))); tot *= n; } for (size_t g = 0; g < tot; g++) l.c.push_back(1 + 0.5 * ((g * g * 3 + variant * 5) % 11)); l.h = Histogram(ax); l.h.SetBinContents(l.c); return l; };
  L lat[3] = {mk(0), mk(1), mk(2)};
  auto value = [&](const L &l, const VD &v, double &out) { int n = l.cen[0].size(); std::vector<int> cell(D); VD fr(D); for (int d = 0; d < D; d++) { if (!(v[d] >= l.cen[d][0] && v[d] <= l.cen[d][n - 1])) return false; int k = 0; while (k < n - 2 && v[d] >= l.cen[d][k + 1]) k++; cell[d] = k; fr[d] = (v[d] - l.cen[d][k]) / (l.cen[d][k + 1] - l.cen[d][k]); } out = 0; for (int m = 0; m < (1 << D); m++) { double w = 1; size_t g = 0; for (int d = 0; d < D; d++) { int b = m >> d & 1; w *= b ? fr[d] : 1 - fr[d]; g = g * n + cell[d] + b; } out += w * l.c[g]; } return true; };
  static const VD along = {-0.25, 0.25, 0.75, 1, 1.25, -0.75, 9};
  ShapeInterpConstraint s[2] = {ShapeInterpConstraint(lat[0].h), ShapeInterpConstraint(lat[1].h)}; int of[2] = {0, 1}, inMan = -1, copied = -1; ConstraintManager man; std::unique_ptr<ConstraintManager> copy;
  for (int step = 0; step < depth; step++) { int o = choose(11, "op");
    if (o < 7) { VD v(D, along[o]); if (D == 2) v[1] = along[(o * 3 + 2) % 6]; ParameterDict p{{"unrelated", 1}}; for (int d = 0; d < D; d++) p[NM[d]] = v[d]; MC_OP("evaluate at " << vstr(v));
      auto ask = [&](const L &l, const char *who, auto eval) { double want = 0, got = 0; bool ok = value(l, v, want), t = throws([&] { got = eval(); }); MC_CHECK(ok != t, ok ? "interpolation refused (histories)" : "interpolation outside the lattice is not refused (histories)", who << " at " << vstr(v)); if (ok) MC_CHECK(close(got, want), "interpolated value (histories)", who << " at " << vstr(v) << " got " << got << " expected " << want); };
      for (int k = 0; k < 2; k++) ask(lat[of[k]], "lattice", [&] { return s[k].Evaluate(p); }); if (inMan >= 0) ask(lat[inMan], "manager", [&] { return man.Evaluate(p); }); if (copy && copied >= 0) ask(lat[copied], "copied manager", [&] { return copy->Evaluate(p); }); }
    else if (o == 7) { op("assign the first to the second, replace the first"); s[1] = s[0]; of[1] = of[0]; of[0] = (of[0] + 1) % 3; s[0] = ShapeInterpConstraint(lat[of[0]].h); }
    else if (o == 8) { op("give the first's lattice to the manager"); inMan = of[0]; man.SetConstraint("l", lat[inMan].h); }
    else if (o == 9) { op("copy the manager"); copy.reset(new ConstraintManager(man)); copied = inMan; }
    else { op("exchange"); std::swap(s[0], s[1]); std::swap(of[0], of[1]); }
    state(Hash().b(of[0]).b(of[1]).b(inMan + 1).b(copied + 1).b(o).h); }
}
