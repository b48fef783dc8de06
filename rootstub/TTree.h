// records what is filled from the registered addresses; when read back, an entry's values are in its leaves
#pragma once
#include <string>
#include <vector>
#include <map>
#include <list>
#include <cstring>
#include "TObject.h"
#include "TFile.h"
#include "TLeaf.h"
class TObjArray { public: std::vector<TLeaf *> l; TLeaf *At(int i) const { return l.at(i); } };
class TTree : public TObject {
  mutable std::vector<TLeaf> leaves_; mutable TObjArray array_;
protected:
  void leaves() const { if (leaves_.size() != branches.size()) { leaves_.resize(branches.size()); array_.l.clear(); for (size_t i = 0; i < branches.size(); i++) { leaves_[i].name = branches[i].name; array_.l.push_back(&leaves_[i]); } } }
public:
  struct B { std::string name, leaf; void *p; };
  std::string name;
  std::vector<B> branches;
  std::vector<std::map<std::string, double>> rows;
  TTree(const char *n, const char *) : name(n) {}
  TTree(const TTree &o) : TObject(), name(o.name), branches(o.branches), rows(o.rows) {}
  TObject *StubCopy() const override { return new TTree(*this); }
  void Branch(const char *n, void *p, const char *leaf) { branches.push_back({n, leaf, p}); }
  int Fill() {
    std::map<std::string, double> r;
    for (auto &b : branches) {
      char t = b.leaf.size() ? b.leaf.back() : 'D';
      double v = 0;
      if (t == 'D') v = *(double *)b.p; else if (t == 'I') v = *(int *)b.p; else if (t == 'O') v = *(bool *)b.p; else if (t == 'F') v = *(float *)b.p;
      r[b.name] = v;
    }
    rows.push_back(r);
    return 1;
  }
  virtual long GetEntries() const { return (long)rows.size(); }
  virtual int GetEntry(long i) { leaves(); for (auto &l : leaves_) l.value = rows.at(i).at(l.name); return 1; }
  long GetEntriesFast() const { return GetEntries(); }
  const char *GetName() const { return name.c_str(); }
  void SetDirectory(void *) {}
  int GetNbranches() const { return (int)branches.size(); }
  const TObjArray *GetListOfBranches() const { leaves(); return &array_; }
  TLeaf *GetLeaf(const char *n) { leaves(); for (auto &l : leaves_) if (l.name == n) return &l; return nullptr; }
  int Write(const char * = 0) { if (TFile::Current()) stubStore()[TFile::Current()->StubName()][name].reset(StubCopy()); return 1; }
  void LoadBaskets() {} void DropBaskets() {}
};
