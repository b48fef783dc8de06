#pragma once
#include "TTree.h"
class TNtuple : public TTree {
  std::vector<float> args_; std::vector<std::vector<float>> data_;
public:
  TNtuple(const char *n, const char *t, const char *vars) : TTree(n, t) { std::string v(vars), one; if (v.size()) { for (char c : v + ":") if (c == ':') { branches.push_back({one, one + "/F", nullptr}); one.clear(); } else one += c; } args_.resize(branches.size()); }
  TNtuple(const TNtuple &o) : TTree(o), args_(o.args_), data_(o.data_) {}
  TObject *StubCopy() const override { return new TNtuple(*this); }
  int Fill(const float *f) { data_.push_back(std::vector<float>(f, f + branches.size())); return 1; }
  long GetEntries() const override { return (long)data_.size(); }
  int GetEntry(long i) override { args_ = data_.at(i); return 1; }
  float *GetArgs() { return args_.data(); }
  int GetNvar() const { return (int)branches.size(); }
};
