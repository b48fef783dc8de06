#pragma once
#include <string>
#include <vector>
#include <algorithm>
#include <map>
class TAxis {
  std::string t_; 
public:
  std::vector<double> e;  // edges
  void SetTitle(const char *t) { t_ = t; }
  const char *GetTitle() const { return t_.c_str(); }
  int GetNbins() const { return (int)e.size() - 1; }
  double GetBinLowEdge(int i) const { return e.at(i - 1); }
  double GetBinUpEdge(int i) const { return e.at(i); }
  double GetBinCenter(int i) const { return 0.5 * (e.at(i - 1) + e.at(i)); }
  double GetBinWidth(int i) const { return e.at(i) - e.at(i - 1); }
  double GetXmin() const { return e.front(); }
  double GetXmax() const { return e.back(); }
  int FindFixBin(double x) const { return FindBin(x); }
  int FindBin(double x) const { return int(std::upper_bound(e.begin(), e.end(), x) - e.begin()); }
};
class TStubHist {
protected:
  TAxis ax_[3]; int dim_; std::vector<double> c_; std::string name_;
  static void edges(TAxis &a, int n, const double *e) { a.e.assign(e, e + n + 1); }
  static void edges(TAxis &a, int n, double lo, double hi) { a.e.clear(); for (int i = 0; i <= n; i++) a.e.push_back(lo + i * (hi - lo) / n); }
  void alloc(int d) { dim_ = d; size_t n = 1; for (int i = 0; i < d; i++) n *= ax_[i].e.size() + 1; c_.assign(n, 0); }
public:
  TAxis *GetXaxis() { return &ax_[0]; } TAxis *GetYaxis() { return &ax_[1]; } TAxis *GetZaxis() { return &ax_[2]; }
  const TAxis *GetXaxis() const { return &ax_[0]; } const TAxis *GetYaxis() const { return &ax_[1]; } const TAxis *GetZaxis() const { return &ax_[2]; }
  int GetNbinsX() const { return ax_[0].GetNbins(); } int GetNbinsY() const { return ax_[1].GetNbins(); } int GetNbinsZ() const { return ax_[2].GetNbins(); }
  int GetBin(int i, int j = 0, int k = 0) const { int nx = GetNbinsX() + 2; int ny = dim_ > 1 ? GetNbinsY() + 2 : 1; return i + nx * (j + ny * k); }
  double GetBinContent(int b) const { return c_.at(b); }
  double GetBinContent(int i, int j) const { return c_.at(GetBin(i, j)); }
  double GetBinContent(int i, int j, int k) const { return c_.at(GetBin(i, j, k)); }
  void SetBinContent(int b, double v) { c_.at(b) = v; }
  void SetBinContent(int i, int j, double v) { c_.at(GetBin(i, j)) = v; }
  void SetBinContent(int i, int j, int k, double v) { c_.at(GetBin(i, j, k)) = v; }
  void AddBinContent(int b, double v = 1) { c_.at(b) += v; }
  int FindBin(double x, double y = 0, double z = 0) const { return GetBin(ax_[0].FindBin(x), dim_ > 1 ? ax_[1].FindBin(y) : 0, dim_ > 2 ? ax_[2].FindBin(z) : 0); }
  int FindFixBin(double x, double y = 0, double z = 0) const { return FindBin(x, y, z); }
  int GetDimension() const { return dim_; }
  int GetNcells() const { return (int)c_.size(); }
  double GetBinLowEdge(int i) const { return ax_[0].GetBinLowEdge(i); }
  double GetBinCenter(int i) const { return ax_[0].GetBinCenter(i); }
  double GetBinWidth(int i) const { return ax_[0].GetBinWidth(i); }
  void Scale(double s) { for (double &v : c_) v *= s; }
  void Reset(const char * = "") { std::fill(c_.begin(), c_.end(), 0.); }
  void Sumw2(bool = true) {}
  void SetTitle(const char *) {}
  void SetBinError(int, double) {}
  void SetDirectory(void *) {}
  void SetName(const char *n) { name_ = n; }
  const char *GetName() const { return name_.c_str(); }
  static std::map<std::string, TStubHist> &Saved() { static std::map<std::string, TStubHist> s; return s; }
  void SaveAs(const char *f) const { Saved()[f] = *this; }
};
