#pragma once
#include "TStubHist.h"
class TH2D : public TStubHist {
public:
  TH2D(const char *n, const char *, int nx, const double *e, int ny, const double *f) { name_ = n; edges(ax_[0], nx, e); edges(ax_[1], ny, f); alloc(2); }
  TH2D(const char *n, const char *, int nx, double lo, double hi, int ny, double ylo, double yhi) { name_ = n; edges(ax_[0], nx, lo, hi); edges(ax_[1], ny, ylo, yhi); alloc(2); }
  void Fill(double x, double y, double w = 1) { c_.at(GetBin(ax_[0].FindBin(x), ax_[1].FindBin(y))) += w; }
};
