#pragma once
#include "TObject.h"
class TFile {
  std::string name_; bool zombie_; std::map<std::string, std::unique_ptr<TObject>> open_;
public:
  static TFile *&Current() { static TFile *c = nullptr; return c; }
  TFile(const char *n, const char *opt = "") : name_(n), zombie_(false) {
    if (std::string(opt) == "RECREATE") stubStore()[name_].clear(); else zombie_ = !stubStore().count(name_);
    Current() = this;
  }
  ~TFile() { if (Current() == this) Current() = nullptr; }
  const std::string &StubName() const { return name_; }
  bool cd() { Current() = this; return true; }
  void Close() { open_.clear(); }
  bool IsZombie() const { return zombie_; }
  bool IsOpen() const { return !zombie_; }
  const char *GetName() const { return name_.c_str(); }
  int Write(const char * = 0) { return 1; }
  template <typename T> T *Get(const char *n) { return dynamic_cast<T *>(Get(n)); }
  TObject *Get(const char *n) {
    auto &f = stubStore()[name_]; auto it = f.find(n); if (it == f.end()) return nullptr;
    auto &o = open_[n]; if (!o) o.reset(it->second->StubCopy()); return o.get();
  }
};
