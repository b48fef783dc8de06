#pragma once
#include "TStubHist.h"
class TH3D : public TStubHist {
public:
  TH3D(const char *n, const char *, int nx, const double *e, int ny, const double *f, int nz, const double *g) { name_ = n; edges(ax_[0], nx, e); edges(ax_[1], ny, f); edges(ax_[2], nz, g); alloc(3); }
  void Fill(double x, double y, double z, double w = 1) { c_.at(GetBin(ax_[0].FindBin(x), ax_[1].FindBin(y), ax_[2].FindBin(z))) += w; }
};
