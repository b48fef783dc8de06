// C11 systematic groups: each distribution gets exactly its groups, in order
#include "mc.h"
#include <SystematicManager.h>
#include <Scale.h>
#include <Shift.h>
#include <Shape.h>
#include <Renorm.h>
#include <memory>
#include <algorithm>
#include <map>
using namespace mc;
typedef std::vector<double> VD;
typedef std::vector<std::string> VN;

static AxisCollection axes() { static AxisCollection *a = [] { AxisCollection *q = new AxisCollection; q->AddAxis(BinAxis("x", 0, 3, 3)); return q; }(); return *a; }
static double shapeFn(const ParameterDict &p, const VD &v) { return p.at("k") * v[0]; }

struct Pool {
  std::unique_ptr<Systematic> s[3]; double par[3] = {0.5, 0.25, 2};
  Pool() {
    s[0].reset(new Scale("scale")); s[1].reset(new Shift("shift")); Shape *h = new Shape("shape"); h->SetShapeFunction(shapeFn, {"k"}); s[2].reset(h);
    for (int i = 0; i < 3; i++) { s[i]->SetAxes(axes()); s[i]->SetDistributionObs(VN{"x"}); s[i]->SetTransformationObs(VN{"x"}); set(i, par[i]); }
  }
  void set(int i, double v) { par[i] = v; s[i]->SetParameter(i == 0 ? "scaleFactor" : i == 1 ? "shift" : "k", v); }
};
// bin-by-bin reference
static VD act(int i, double p, const VD &x) {
  VD y(3, 0);
  for (int f = 0; f < 3; f++) {
    if (i == 2) { y[f] = x[f] * p * (f + 0.5); continue; }
    double lo = f, hi = f + 1; if (i == 0) { lo *= p; hi *= p; } else { lo += p; hi += p; }
    for (int t = 0; t < 3; t++) y[t] += x[f] * std::max(0., std::min(hi, t + 1.) - std::max(lo, (double)t)) / (hi - lo);
  }
  return y;
}
static BinnedED dist(int j) { BinnedED d(std::string(1, "dbca"[j]), axes()); d.SetObservables(VN{"x"}); for (int i = 0; i < 3; i++) d.SetBinContent(i, 1 + i * (j + 1) + 0.5 * ((i + j) % 2)); return d; }

struct Model {
  std::map<std::string, std::vector<int>> g{{"", {}}};
  std::map<int, VN> d;
  bool in(int i, const std::string &n) const { auto it = g.find(n); return it != g.end() && std::find(it->second.begin(), it->second.end(), i) != it->second.end(); }
  // what acts on a distribution assigned these groups, in order; empty optional if something acts twice
  bool chain(const VN &groups, std::vector<int> &c) const {
    VN all; if (std::find(groups.begin(), groups.end(), "") == groups.end()) all.push_back(""); all.insert(all.end(), groups.begin(), groups.end());
    for (auto &n : all) { if (!g.count(n)) return false; for (int i : g.at(n)) { if (std::find(c.begin(), c.end(), i) != c.end()) return false; c.push_back(i); } }
    return true;
  }
  bool consistent() const { for (auto &x : g) { std::vector<int> c = x.second; std::sort(c.begin(), c.end()); if (std::unique(c.begin(), c.end()) != c.end()) return false; }
    for (auto &x : g) if (x.first != "") for (int i : x.second) if (in(i, "")) return false;
    for (auto &x : d) { std::vector<int> c; if (!chain(x.second, c)) return false; } return true; }
};
static const VN &names() { static const VN n = {"", "g1", "g2"}; return n; }
static const std::vector<VN> &assigns() { static const std::vector<VN> a = {{""}, {"g1"}, {"g2"}, {"g1", "g2"}, {"g2", "g1"}, {}, {"nope"}, {"", "g1"}, {"g1", "g1"}}; return a; }

struct Run {
  Pool pool; SystematicManager man; Model m; double built[3] = {-1, -1, -1}; std::map<std::string, std::vector<int>> builtG; bool everBuilt = false, alt = false;
  void add(int i, int g) {
    MC_OP("add systematic " << i << " to '" << names()[g] << "'");
    Model n = m; bool ok = true;
    if (g == 0) for (auto &x : m.g) if (m.in(i, x.first)) ok = false;
    n.g[names()[g]].push_back(i);
    ok = ok && n.consistent();
    bool plain = g == 0 && (alt ? flip("no group named") : i != 1);
    bool t = throws([&] { plain ? man.Add(pool.s[i].get()) : man.Add(pool.s[i].get(), names()[g]); });
    if (fresh()) MC_CHECK(t == !ok, ok ? "add: refused" : "add: accepted though it would act twice", "systematic " << i << " group " << names()[g]);
    if (ok) m = n;
  }
  void assign(int j, int a) {
    MC_OP("assign " << vstr(assigns()[a]) << " to " << j);
    bool ok = true; std::vector<int> c; ok = m.chain(assigns()[a], c);
    const VN &v = assigns()[a];
    // naming the global group next to others is refused once it has systematics, naming a group twice once it has any
    if (v.size() > 1 && std::find(v.begin(), v.end(), "") != v.end() && !m.g.at("").empty()) ok = false;
    bool t = throws([&] { v.size() == 1 && (alt ? flip("single name") : j == 0) ? man.AddDist(dist(j), v[0]) : man.AddDist(dist(j), v); });
    if (fresh()) MC_CHECK(t == !ok, ok ? "assign: refused" : "assign: accepted", "");
    if (ok) m.d[j] = v;
  }
  void construct() { MC_OP("construct"); for (auto &x : m.g) (void)x; man.Construct(); for (int i = 0; i < 3; i++) built[i] = pool.par[i]; builtG = m.g; everBuilt = true; }
  void setpar(int i, double v) { MC_OP("systematic " << i << " parameter " << v); pool.set(i, v); }
  void check() {
    int n = 3; std::vector<BinnedED> orig, work;
    for (int j = 0; j < n; j++) { orig.push_back(dist(j)); work.push_back(orig.back()); }
    bool ready = everBuilt || m.d.empty();
    for (auto &x : m.g) if (!x.second.empty() && (!builtG.count(x.first) || builtG[x.first] != x.second)) ready = false;
    if (!ready) { if (!fresh()) return;
      bool needs = false; for (auto &x : m.d) { std::vector<int> c; m.chain(x.second, c); for (auto &gn : x.second) if (!m.g.at(gn).empty() && !builtG.count(gn)) needs = true; if (!m.g.at("").empty() && !builtG.count("")) needs = true; }
      if (needs) MC_CHECK(throws([&] { man.DistortEDs(orig, work); }), "distort: answered before being constructed", ""); return; }
    MC_OP("distort");
    for (int rep = 0; rep < 2; rep++) {
      VD norms(n, -1); bool with = rep == 0;
      with ? man.DistortEDs(orig, work, &norms) : man.DistortEDs(orig, work);
      if (!fresh()) continue;
      for (int j = 0; j < n; j++) {
        VD x = dist(j).GetBinContents(); MC_CHECK(orig[j].GetBinContents() == x, "distort: changed an original", "");
        if (m.d.count(j)) { std::vector<int> c; m.chain(m.d[j], c); for (int i : c) x = act(i, built[i], x); }
        double sum = 0; for (double q : x) sum += q;
        MC_CHECK(vclose(work[j].GetBinContents(), x, 1e-10, 1e-10), "distort: contents", "distribution " << j << " got " << vstr(work[j].GetBinContents()) << " expected " << vstr(x));
        if (with) MC_CHECK(close(norms[j], sum, 1e-10, 1e-10), "distort: norm", "distribution " << j << " got " << norms[j] << " expected " << sum);
        MC_CHECK(work[j].GetName() == orig[j].GetName() && work[j].GetObservables() == orig[j].GetObservables(), "distort: identity", "");
      }
    }
  }
  void queries() {
    if (!fresh()) return;
    size_t tot = 0;
    for (auto &x : m.g) { tot += x.second.size(); VN w; for (int i : x.second) w.push_back(pool.s[i]->GetName());
      MC_CHECK(man.GetNSystematicsInGroup(x.first) == x.second.size() && man.GetSystematicsNamesInGroup(x.first) == w && man.GetGroup(x.first) == w && man.GetSystematicsInGroup(x.first).size() == w.size(), "query: group contents", "group " << x.first); }
    MC_CHECK(man.GetNSystematics() == tot && man.GetNGroups() == m.g.size() && man.GetGroupNames().size() == m.g.size() && man.GetGlobalSystematics().size() == m.g.at("").size(), "query: totals", "");
    { const auto &all = man.GetSystematicsGroup(); MC_CHECK(all.size() == m.g.size(), "query: all groups", all.size()); for (auto &x : m.g) MC_CHECK(all.count(x.first) && all.at(x.first).size() == x.second.size() && all.at(x.first) == man.GetSystematicsInGroup(x.first), "query: all groups", x.first); }
  for (const char *u : {"nope", "x"}) MC_CHECK(throws([&] { man.GetNSystematicsInGroup(u); }) && throws([&] { man.GetSystematicsNamesInGroup(u); }) && throws([&] { man.GetGroup(u); }) && throws([&] { man.GetSystematicsInGroup(u); }) && throws([&] { man.GetTotalResponse(u); }), "query: unknown group answered", "");
    Hash h; for (auto &x : m.g) { h.s(x.first); for (int i : x.second) h.b(i); } for (auto &x : m.d) { h.b(x.first); h.vs(x.second); } for (double b : built) h.d(b); state(h.h);
  }
};
static const VD &vals(int i) { static const VD v[3] = {{0.5, 1.5}, {0.25, -1.2}, {2, 0.5}}; return v[i]; }

MC_SCENARIO_SPLIT(histories, 4) {
  Run r; r.alt = true; int n = tier(4, 5);
  for (int k = 0; k < n; k++) {
    switch (choose(5, "op")) {
      case 0: { int i = choose(2, "systematic"); if (i == 1) i = 2; r.add(i, choose(3, "group")); break; }
      case 1: { static const std::vector<int> as = {0, 1, 3, 4, 6}; r.assign(choose(2, "distribution"), as[choose((int)as.size(), "assignment")]); break; }
      case 2: r.construct(); break;
      case 3: { int i = choose(2, "systematic") * 2; r.setpar(i, vals(i)[choose(2, "value")]); break; }
      case 4: r.check(); break;
    }
    r.queries();
  }
  r.check(); r.construct(); r.check();
}

// every way of putting three systematics in groups, in every order, then every assignment of the distributions
MC_SCENARIO_SPLIT(assignments, 5) {
  Run r; std::vector<int> left = {0, 1, 2};
  for (int k = 0; k < 3; k++) { int p = choose((int)left.size(), "next"); int i = left[p]; left.erase(left.begin() + p); int g = choose(5, "group"); if (g == 3) { r.add(i, 1); r.add(i, 2); } else if (g < 3) r.add(i, g); r.queries(); if (k == 1) { int e = choose(tier(3, 6), "assign early"); if (e) r.assign(0, e); } }
  r.assign(0, choose((int)assigns().size(), "assignment"));
  int sec = choose(tier(4, 6), "second"); if (sec) r.assign(1, sec - 1);
  if (flip("construct twice with new parameters")) { r.construct(); r.check(); for (int i = 0; i < 3; i++) r.setpar(i, vals(i)[1]); }
  r.construct(); r.check();
  if (thorough() && flip("reassign")) { r.assign(0, choose(5, "assignment")); r.check(); r.queries(); }
}

// a dozen of each: systematics in one group, groups, distributions
MC_SCENARIO(many) {
  int n = tier(9, 13); int ns = 1 + choose(n, "systematics"), ng = choose(tier(5, 13), "groups"), nd = 1 + choose(tier(4, 12), "distributions"), late = choose(2, "distributions first"); if (!thorough()) { nd = nd * 3; ng = ng * 3; }
  std::vector<std::unique_ptr<Systematic>> s; std::vector<int> kind; VD par; std::vector<std::vector<int>> g(ng + 1); SystematicManager man; auto gname = [](int k) { return k ? "g" + std::to_string(k) : std::string(); };
  for (int i = 0; i < ns; i++) { int k = i % 3; kind.push_back(k); par.push_back(k == 0 ? 0.5 + 0.125 * i : k == 1 ? 0.0625 * (i + 1) : 0.5 + 0.25 * i); std::string nm = "s" + std::to_string(i); if (k == 0) s.emplace_back(new Scale(nm)); else if (k == 1) s.emplace_back(new Shift(nm)); else { Shape *h = new Shape(nm); h->SetShapeFunction(shapeFn, {"k"}); s.emplace_back(h); } s[i]->SetAxes(axes()); s[i]->SetDistributionObs(VN{"x"}); s[i]->SetTransformationObs(VN{"x"}); s[i]->SetParameter(k == 0 ? "scaleFactor" : k == 1 ? "shift" : "k", par[i]); }
  std::vector<VN> as(nd); std::vector<BinnedED> orig, work; for (int j = 0; j < nd; j++) { BinnedED d("d" + std::to_string(j), axes()); d.SetObservables(VN{"x"}); for (int i = 0; i < 3; i++) d.SetBinContent(i, 1 + i * (j + 1) + 0.5 * ((i + j) % 2)); orig.push_back(d); work.push_back(d); }
  for (int i = 0; i < ns; i++) { int k = i * 5 % (ng + 1); g[k].push_back(i); }
  auto addAll = [&] { for (int i = 0; i < ns; i++) { int k = i * 5 % (ng + 1); if (k) man.Add(s[i].get(), gname(k)); else man.Add(s[i].get()); } };
  std::vector<std::vector<int>> use(nd); for (int j = 0; j < nd; j++) { for (int t = 0; t < 1 + j % 3; t++) { int k = 1 + (j * 3 + t * 2) % std::max(1, ng); if (ng && !g[k].empty() && std::find(use[j].begin(), use[j].end(), k) == use[j].end()) use[j].push_back(k); } for (int k : use[j]) as[j].push_back(gname(k)); }
  addAll(); for (int jj = 0; jj < nd; jj++) { int j = late ? nd - 1 - jj : jj; if (as[j].empty()) man.AddDist(orig[j], ""); else man.AddDist(orig[j], as[j]); }
  MC_OP(ns << " systematics, " << ng << " groups, " << nd << " distributions"); size_t nonempty = 1; for (int k = 1; k <= ng; k++) if (!g[k].empty()) nonempty++;
  MC_CHECK(man.GetNSystematics() == (size_t)ns && man.GetNGroups() == nonempty, "many: totals", man.GetNSystematics() << " " << man.GetNGroups());
  for (int k = 0; k <= ng; k++) { if (k && g[k].empty()) continue; VN w; for (int i : g[k]) w.push_back(s[i]->GetName()); MC_CHECK(man.GetSystematicsNamesInGroup(gname(k)) == w, "many: group", gname(k) << " has " << vstr(man.GetSystematicsNamesInGroup(gname(k)))); }
  for (int rep = 0; rep < 2; rep++) {
    man.Construct(); VD norms(nd, -1); man.DistortEDs(orig, work, &norms);
    for (int j = 0; j < nd; j++) { VD x = orig[j].GetBinContents(); for (int i : g[0]) x = act(kind[i], par[i], x); for (int k : use[j]) for (int i : g[k]) x = act(kind[i], par[i], x); double sum = 0; for (double q : x) sum += q;
      MC_CHECK(vclose(work[j].GetBinContents(), x, 1e-9, 1e-10) && close(norms[j], sum, 1e-9, 1e-10), "many: contents", "distribution " << j << " groups " << vstr(as[j]) << " got " << vstr(work[j].GetBinContents()) << " expected " << vstr(x)); state(Hash().vd(x).h); }
    for (int i = 0; i < ns; i++) { par[i] *= 1.25; s[i]->SetParameter(kind[i] == 0 ? "scaleFactor" : kind[i] == 1 ? "shift" : "k", par[i]); }
  }
}
