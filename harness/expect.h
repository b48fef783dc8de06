// reference for the expected distribution shared by C13 and C14: one axis of NB bins, a scale on all pdfs, a shape on those of a group
#pragma once
#include "mc.h"
#include <BinnedEDManager.h>
#include <algorithm>
using namespace mc;
typedef std::vector<double> VD;
typedef std::vector<std::string> VN;

static const int NB = 4;
static AxisCollection axes1() { AxisCollection c; c.AddAxis(BinAxis("x", 0, NB, NB)); return c; }
static double shapeFn(const ParameterDict &p, const VD &v) { return p.at("k") * (1 + v[0]); }
static VD contents(int j) { // not all normalised
  static const VD c[4] = {{0.25, 0.25, 0.375, 0.125}, {1, 2, 0, 5}, {0.5, 0, 0.25, 0.25}, {3, 1, 1, 1}}; return c[j]; }
static BinnedED pdf(int j) { BinnedED d(std::string(1, "cabd"[j]), axes1()); d.SetObservables(VN{"x"}); for (int i = 0; i < NB; i++) d.SetBinContent(i, contents(j)[i]); return d; }
static double sum(const VD &v) { double s = 0; for (double x : v) s += x; return s; }

struct Config { bool scale = false, shape = false; unsigned lo = 0, hi = 0; bool buffered = false, over = false; };
struct Ref {
  std::vector<int> idx; std::vector<NormFittingStatus> mode; VD n;      // fitted value per pdf (unused if not fitted)
  std::vector<VD> w; VD eff; VD reported;
  void add(int j, NormFittingStatus m) { idx.push_back(j); mode.push_back(m); n.push_back(0); w.push_back(contents(j)); eff.push_back(1); }
  void distort(const Config &c, double sf, double k, const std::vector<bool> &inGroup) {
    for (size_t i = 0; i < idx.size(); i++) {
      VD x = contents(idx[i]); bool any = c.scale || c.shape;
      if (c.scale) { VD y(NB, 0); for (int f = 0; f < NB; f++) { double lo = f * sf, hi = (f + 1) * sf; for (int t = 0; t < NB; t++) y[t] += x[f] * std::max(0., std::min(hi, t + 1.) - std::max(lo, (double)t)) / (hi - lo); } x = y; }
      if (c.shape && inGroup[i]) for (int f = 0; f < NB; f++) x[f] *= k * (1 + f + 0.5);
      w[i] = x; eff[i] = any ? sum(x) : 1;
    }
    report();
  }
  void shrink(const Config &c) {
    if (!c.buffered) return;
    for (size_t i = 0; i < idx.size(); i++) {
      VD x(NB - c.lo - c.hi, 0);
      for (int f = 0; f < NB; f++) { int t = f - (int)c.lo; bool out = t < 0 || t >= (int)x.size(); if (out && !c.over) continue; x[std::min(std::max(t, 0), (int)x.size() - 1)] += w[i][f]; }
      double a = sum(w[i]), b = sum(x);
      if (mode[i] == DIRECT && b != 0) for (double &q : x) q /= b;
      if (mode[i] == INDIRECT) eff[i] *= a == 0 ? 0 : b / a;
      w[i] = x;
    }
    report();
  }
  void report() { reported.clear(); for (size_t i = 0; i < idx.size(); i++) reported.push_back(mode[i] == DIRECT ? n[i] : mode[i] == INDIRECT ? n[i] * eff[i] : sum(w[i])); }
  VD expected() const { VD e(w[0].size(), 0); for (size_t i = 0; i < w.size(); i++) for (size_t b = 0; b < e.size(); b++) e[b] += (mode[i] == FALSE ? 1 : n[i]) * w[i][b]; return e; }
  ParameterDict dict() const { ParameterDict d; for (size_t i = 0; i < idx.size(); i++) if (mode[i] != FALSE) d[pdf(idx[i]).GetName()] = n[i]; return d; }
};

