#pragma once
#include "TStubHist.h"
class TH1D : public TStubHist {
public:
  TH1D(const char *n, const char *, int nx, const double *e) { name_ = n; edges(ax_[0], nx, e); alloc(1); }
  TH1D(const char *n, const char *, int nx, double lo, double hi) { name_ = n; edges(ax_[0], nx, lo, hi); alloc(1); }
  void Fill(double x, double w = 1) { c_.at(ax_[0].FindBin(x)) += w; }
};
