// C26 Generated data sets draw only what they may, the number of times asked
#include "mc.h"
#include <BinnedED.h>
#include <BinnedEDGenerator.h>
#include <BoxCut.h>
#include <CutCollection.h>
#include <DataSetGenerator.h>
#include <Event.h>
#include <Exceptions.h>
#include <Function.h>
#include <OXSXDataSet.h>
#include <Rand.h>
#include <TRandom3.h>
#include <algorithm>
#include <cmath>
#include <iostream>
#include <map>
#include <memory>
#include <set>
using namespace mc;
typedef std::vector<double> VD;
typedef std::vector<std::string> VN;
static struct Quiet { Quiet() { std::cout.setstate(std::ios::failbit); } } quiet;
struct Hooks { ~Hooks() { RandHooks::rndm() = nullptr; RandHooks::poisson() = nullptr; RandHooks::gaus() = nullptr; } };
static const double TOP = 1 - 1. / 4294967296.;

// an event is known by its first value; source s holds the events 10 s, 10 s + 1, ...
static OXSXDataSet source(int s, int n, const VN &names = {"id", "e"}) { OXSXDataSet d; d.SetObservableNames(names); for (int i = 0; i < n; i++) d.AddEntry(Event(VD{10. * s + i, i + 0.5})); return d; }
static std::vector<int> ids(const DataSet &d) { std::vector<int> r; for (size_t i = 0; i < d.GetNEntries(); i++) { Event e = d.GetEntry(i); MC_CHECK(e.GetNObservables() == 2 && e.GetDatum("id") == e.GetDatum(0) && e.GetDatum("e") == e.GetDatum(1) && e.GetDatum(1) == (int(e.GetDatum(0)) % 10) + 0.5, "event changed", vstr(e.GetData())); r.push_back((int)e.GetDatum(0)); } return r; }
static std::string istr(const std::vector<int> &v) { std::string s; for (int x : v) s += std::to_string(x) + " "; return s; }
enum Mode { RANDOM, SEQUENTIAL, BOOTSTRAP };
static const char *modeName(int m) { return m == RANDOM ? "random" : m == SEQUENTIAL ? "sequential" : "bootstrap"; }
struct World {
  std::vector<OXSXDataSet> data; std::vector<DataSet *> ptr; DataSetGenerator g; std::vector<int> mode; std::vector<std::vector<int>> left; std::vector<bool> ordered; VD rates; bool cut = false; Hooks hooks;
  std::vector<int> remaining(int i) { int n = -7; std::unique_ptr<OXSXDataSet> r(g.AllRemainingEvents(i, &n)); std::vector<int> v = ids(*r); MC_CHECK(n == (int)v.size(), "number of remaining events", n << " for " << v.size()); MC_CHECK(r->GetObservableNames() == data[i].GetObservableNames(), "observables of the remaining events", vstr(v)); return v; }
  void flags() { std::vector<bool> b, s; for (int m : mode) { b.push_back(m == BOOTSTRAP); s.push_back(m == SEQUENTIAL); } g.SetBootstrap(b); g.SetSequentialFlags(s); MC_CHECK(g.GetBootstrap() == b && g.GetSequentialFlags() == s, "flags", ""); }
  bool passes(int id) const { return !cut || id % 10 != 1; }
  void compareLeft() { for (size_t i = 0; i < left.size(); i++) { auto v = remaining(i), w = left[i]; bool same = v == w; std::sort(v.begin(), v.end()); std::sort(w.begin(), w.end()); MC_CHECK(v == w, "remaining events", "source " << i << ": " << istr(v) << "expected " << istr(w)); if (ordered[i]) MC_CHECK(same, "remaining events out of order", "source " << i); } }
  void generate(const std::vector<int> &asked, const std::function<OXSXDataSet(std::vector<int> *)> &f, bool wantTaken) {
    bool tooMany = false; for (size_t i = 0; i < asked.size(); i++) tooMany |= mode[i] == BOOTSTRAP ? asked[i] && data[i].GetNEntries() == 0 : asked[i] > (int)left[i].size();
    std::vector<int> taken = {99}, got; bool threw = false; try { OXSXDataSet d = f(wantTaken ? &taken : nullptr); got = ids(d); MC_CHECK(d.GetObservableNames() == data[0].GetObservableNames(), "observables", ""); } catch (const std::exception &) { threw = true; }
    if (threw && !tooMany) for (size_t i = 0; i < asked.size(); i++) if (mode[i] != RANDOM && data[i].GetNEntries() == 0) { tooMany = true; }   /* nothing asked of an empty source: refused or not */
    MC_CHECK(threw || !tooMany, "more events asked than there are", istr(asked) << "gave " << istr(got)); MC_CHECK(!threw || tooMany, "refused", istr(asked));
    if (threw) { for (size_t i = 0; i < left.size(); i++) { auto v = remaining(i); std::set<int> s(v.begin(), v.end()); MC_CHECK(s.size() == v.size(), "remaining twice", ""); for (int x : v) MC_CHECK(std::count(left[i].begin(), left[i].end(), x), "event drawn before remains", x); left[i] = v; } return; }
    if (wantTaken) MC_CHECK(taken == asked, "events taken", istr(taken) << "expected " << istr(asked));
    std::vector<std::vector<int>> per(asked.size()); size_t last = 0; for (int x : got) { size_t s = x / 10; MC_CHECK(s < asked.size() && x % 10 < (int)data[s].GetNEntries(), "event of no source", x); MC_CHECK(s >= last, "order of the sources", istr(got)); last = s; MC_CHECK(passes(x), "event that fails the cut", x); per[s].push_back(x); }
    for (size_t i = 0; i < asked.size(); i++) {
      auto w = left[i]; if (mode[i] == BOOTSTRAP) { MC_CHECK(cut ? (int)per[i].size() <= asked[i] : (int)per[i].size() == asked[i], "number of events", per[i].size() << " for " << asked[i]); continue; }
      auto now = remaining(i); MC_CHECK((int)now.size() == (int)w.size() - asked[i], "number of events drawn", "source " << i << " left " << istr(now) << "from " << istr(w)); std::vector<int> drawn;
      for (int x : now) MC_CHECK(std::count(w.begin(), w.end(), x) && std::count(now.begin(), now.end(), x) == 1, "remaining event", x);
      for (int x : w) if (!std::count(now.begin(), now.end(), x) && passes(x)) drawn.push_back(x);
      auto p = per[i]; if (mode[i] == SEQUENTIAL && ordered[i]) { MC_CHECK(p == drawn, "sequential draws", istr(p) << "expected " << istr(drawn)); for (int k = 0; k < (int)now.size(); k++) MC_CHECK(now[k] == w[k + asked[i]], "sequential draws", istr(now)); } else { std::sort(p.begin(), p.end()); std::sort(drawn.begin(), drawn.end()); MC_CHECK(p == drawn, "drawn events", "source " << i << ": " << istr(p) << "expected " << istr(drawn)); }
      if (mode[i] == RANDOM && asked[i]) ordered[i] = false; left[i] = now; }
    compareLeft(); }
  World(int n, const std::vector<int> &sizes, int how, bool withCut) : data(n), cut(withCut) {
    for (int i = 0; i < n; i++) { data[i] = source(i, sizes[i]); ptr.push_back(&data[i]); mode.push_back(choose(3, "mode")); std::vector<int> l; for (int j = 0; j < sizes[i]; j++) l.push_back(10 * i + j); left.push_back(l); ordered.push_back(true); rates.push_back(1); }
    if (how) { for (int i = 0; i < n; i++) g.AddDataSet(ptr[i], 1, mode[i] == SEQUENTIAL); std::vector<bool> b; for (int m : mode) b.push_back(m == BOOTSTRAP); g.SetBootstrap(b); } else { g.SetDataSets(ptr); g.SetExpectedRates(rates); flags(); }
    if (cut) { struct NotOne : Cut { bool PassesCut(const Event &e) const override { return e.GetDatum("e") != 1.5; } Cut *Clone() const override { return new NotOne(*this); } std::string GetName() const override { return "n"; } }; if (how) g.AddCut(NotOne()); else { CutCollection c; c.AddCut(BoxCut("b", "e", 0, 9)); c.AddCut(NotOne()); g.SetCuts(c); } } }
};
static std::string showWorld(const World &w) { std::string s; for (size_t i = 0; i < w.mode.size(); i++) s += std::string(modeName(w.mode[i])) + " of " + std::to_string(w.data[i].GetNEntries()) + ", "; return s; }
static void history(int n, int depth, const VD &us, const std::vector<int> &sizes, const std::vector<int> &ops, const VD &rs) {
  std::vector<int> sz; for (int i = 0; i < n; i++) sz.push_back(pick(sizes, "size")); World w(n, sz, choose(2, "added"), flip("cut")); MC_OP(showWorld(w) << (w.cut ? "with a cut" : "")); RandHooks::rndm() = [&] { return pick(us, "random number"); };
  for (int step = 0; step < depth; step++) {
    int op = pick(ops, "operation"); switch (op) {
    case 0: case 1: { std::vector<int> asked; for (int i = 0; i < n; i++) { double r = pick(rs, "rate"); w.rates[i] = r; asked.push_back((int)std::lround(r)); } w.g.SetExpectedRates(w.rates); MC_OP(vstr(w.rates)); w.generate(asked, [&](std::vector<int> *t) { return w.g.ExpectedRatesDataSet(t); }, op == 0); break; }
    case 2: { std::vector<int> asked; for (int i = 0; i < n; i++) { asked.push_back((int)std::lround(pick(rs, "poisson"))); w.rates[i] = 0.7 + i; } w.g.SetExpectedRates(w.rates); MC_OP("poisson " << istr(asked)); size_t at = 0; RandHooks::poisson() = [&](double r) { MC_CHECK(at < asked.size() && r == w.rates[at], "poisson rate", r); return asked[at++]; }; w.generate(asked, [&](std::vector<int> *t) { return w.g.PoissonFluctuatedDataSet(t); }, flip("taken")); RandHooks::poisson() = nullptr; break; }
    case 3: w.compareLeft(); break;
    case 4: { std::vector<int> t = {4}, got, all, cnt; bool some = false; for (int s : sz) some |= s > 0; got = ids(w.g.AllValidEvents(&t)); for (int i = 0; i < n; i++) { cnt.push_back(sz[i]); for (int j = 0; j < sz[i]; j++) all.push_back(10 * i + j); } if (!w.cut) MC_CHECK(got == all && t == cnt, "all events", istr(got) << "/ " << istr(t)); w.compareLeft(); break; }
    case 5: MC_OP("reset"); w.g.Reset(); for (int i = 0; i < n; i++) { w.left[i].clear(); w.ordered[i] = true; for (int j = 0; j < sz[i]; j++) w.left[i].push_back(10 * i + j); } break;
    case 6: for (int i = 0; i < n; i++) w.mode[i] = choose(3, "mode"); MC_OP("now " << showWorld(w)); w.flags(); break; }
    Hash h; for (size_t i = 0; i < w.left.size(); i++) { h.s(modeName(w.mode[i])); auto v = w.left[i]; for (int x : v) h.d(x); h.d(-1); } state(h.h); } }
MC_SCENARIO_SPLIT(one_source, 4) { history(1, 2, thorough() ? VD{1e-10, 0.3, 0.5, TOP} : VD{1e-10, 0.5, TOP}, {0, 1, 2, 3}, {0, 2, 3, 4, 5, 6}, thorough() ? VD{0, 1, 3, 4} : VD{0, 1, 3}); }
MC_SCENARIO_SPLIT(longer, 6) { history(1, tier(4, 5), thorough() ? VD{1e-10, TOP} : VD{0.3, TOP}, {1, 3}, {0, 2, 4, 5, 6}, {1, 2}); }
MC_SCENARIO_SPLIT(two_sources, 5) { history(2, tier(2, 3), thorough() ? VD{1e-10, TOP} : VD{0.3, TOP}, {1, 3}, {0, 5, 6}, {1, 2}); }
MC_SCENARIO_SPLIT(three_sources, 4) { history(3, 1, {0.3, TOP}, thorough() ? std::vector<int>{0, 1, 2} : std::vector<int>{0, 2}, {1, 2}, thorough() ? VD{0, 1.6, 2.4} : VD{0, 1.6}); }
MC_SCENARIO_SPLIT(rounding, 3) { history(1, thorough() ? 2 : 1, {0.1, 0.7, TOP}, {4}, {0, 1}, {0, 0.49, 0.5, 1.49, 1.5, 2.6, 3.7, 4.4, 4.5}); }

// every event that may be drawn is drawn for as many resolutions of the random numbers as any other
MC_SCENARIO(equal_chance) {
  int n = 1 + choose(tier(4, 5), "size"), before = choose(n, "drawn before"), k = choose(std::min(n - before, 3), "draws") + 1; bool boot = flip("bootstrap"), seqFirst = flip("sequential before"); OXSXDataSet d = source(0, n); Hooks hooks; std::map<std::vector<int>, int> seen; int G = n <= 2 ? 8 : n == 3 ? 6 : n == 4 ? 12 : 60; if (n == 5 && k > 2) prune(); MC_OP(n << " events, " << before << " drawn before, " << k << " draws" << (boot ? " with replacement" : "")); if (before == 0 && seqFirst) prune();
  std::vector<int> firstDrawn; long total = 1; for (int i = 0; i < k; i++) total *= G;
  for (long c = 0; c < total; c++) {
    DataSetGenerator g; g.AddDataSet(&d, before, seqFirst); g.SetBootstrap({false}); RandHooks::rndm() = [] { return 0.4; }; std::set<int> gone; if (before) for (int x : ids(g.ExpectedRatesDataSet())) gone.insert(x); g.SetExpectedRates({double(k)}); g.SetSequentialFlags({false}); g.SetBootstrap({boot}); long r = c; RandHooks::rndm() = [&] { double u = (r % G + 0.5) / G; r /= G; return u; };
    std::vector<int> got = ids(g.ExpectedRatesDataSet()); MC_CHECK((int)got.size() == k, "number of events", got.size()); std::set<int> once(got.begin(), got.end()); if (!boot) { MC_CHECK((int)once.size() == k, "drawn twice", istr(got)); for (int x : got) MC_CHECK(!gone.count(x), "drawn before", x); } seen[got]++; }
  long ways = 1; for (int i = 0; i < k; i++) ways *= boot ? n : n - before - i; MC_CHECK((long)seen.size() == ways, "events that cannot be drawn", seen.size() << " sequences of " << ways); for (auto &x : seen) MC_CHECK(x.second * ways == total, "unequal chances", istr(x.first) << " " << x.second << " of " << total); state(Hash().d(n).d(before).d(k).d(boot).d(seqFirst).h); }
MC_SCENARIO(source_refusals) {
  OXSXDataSet a = source(0, 2), b = source(1, 2), c = source(1, 2, {"e", "id"}), e = source(1, 2, {"id", "f"}), em = source(0, 0); Hooks hooks; RandHooks::rndm() = [] { return 0.5; }; DataSetGenerator g; int k = choose(13, "case"); bool pois = flip("poisson"), ok = false; std::vector<DataSet *> s = {&a, &b}; VD r = {1, 1}; std::vector<bool> bo = {false, true}, se = {true, false}; switch (k) { case 0: r = {1}; break; case 1: r = {1, 1, 1}; break; case 2: s = {}; r = {}; bo = se = {}; break; case 3: s = {&a, &c}; break; case 4: s = {&a, &e}; break; case 5: r = {1, -2}; break; case 6: r = {NAN, 1}; break; case 7: bo = {}; break; case 8: bo = {true}; break; case 9: se = {}; break; case 10: se = {}; bo = {true, false}; break; case 11: r = {1, INFINITY}; break; case 12: ok = true; break; }
  g.SetDataSets(s); g.SetExpectedRates(r); g.SetBootstrap(bo); g.SetSequentialFlags(se); RandHooks::poisson() = [](double x) { return x > 0 ? 1 : 0; }; std::string out; int x = isolated([&]() -> std::string { OXSXDataSet d = pois ? g.PoissonFluctuatedDataSet() : g.ExpectedRatesDataSet(); return istr(ids(d)); }, &out, 5); MC_CHECK(x == (ok ? 0 : 1), ok ? "refused" : "inputs that make no sense not refused", k << (x == 2 ? " crash" : x == 3 ? " hang" : " ") << out);
  if (k == 2 || k == 3) MC_CHECK(throws([&] { g.AllValidEvents(); }), "all events of data sets that do not go together", k); if (k == 12) { std::unique_ptr<OXSXDataSet> p(g.AllRemainingEvents(0, nullptr)); MC_CHECK(p->GetNEntries() == 2 && throws([&] { int n; g.AllRemainingEvents(2, &n); }), "remaining events", ""); g.ClearDataSets(); MC_CHECK(throws([&] { g.ExpectedRatesDataSet(); }), "cleared data sets", ""); g.AddDataSet(&em, 0, false); g.SetBootstrap({false}); MC_CHECK(g.ExpectedRatesDataSet().GetNEntries() == 0, "empty source", ""); std::unique_ptr<OXSXDataSet> q(g.AllRemainingEvents(0, nullptr)); MC_CHECK(q->GetNEntries() == 0, "empty remainder", ""); } state(k); }

// binned sources
static AxisCollection axes(int shape) { AxisCollection c; if (shape == 0) c.AddAxis(BinAxis("x", 0, 4, 4)); else if (shape == 1) { c.AddAxis(BinAxis("x", 0, 2, 2)); c.AddAxis(BinAxis("y", -1, 1, 2)); } else if (shape == 2) c.AddAxis(BinAxis("x", 0, 1, 1)); else c.AddAxis(BinAxis("x", 0, 5, 4)); return c; }
static BinnedED binned(const std::string &name, int shape, const VD &c) { BinnedED b(name, axes(shape)); b.SetObservables(shape == 1 ? VN{"x", "y"} : VN{"x"}); b.SetBinContents(c); return b; }
static const std::vector<VD> FILL = {{1, 2, 0, 1}, {0, 0, 1, 0}, {0, 4, 3, 1}, {1, 1, 1, 1}, {0.125, 0, 0.5, 0.375}, {5, 0, 0, 3}, {0, 0, 0, 8}};
static std::string binnedName(bool pois, const std::vector<BinnedED> &v) { std::string s = pois ? "Gen_Poi" : "Gen_Exp"; for (size_t i = 0; i < v.size(); i++) s += (i ? "_" : "") + v[i].GetName(); return s; }
MC_SCENARIO_SPLIT(binned_draws, 3) {
  int n = 1 + choose(2, "pdfs"), shape = choose(2, "shape"); bool pois = flip("poisson"), named = flip("named"); std::vector<BinnedED> pdfs; VD rates; std::vector<int> asked; std::vector<bool> may(4, false); for (int i = 0; i < n; i++) { VD f = pick(FILL, "contents"); pdfs.push_back(binned("p" + std::to_string(i), shape, f)); asked.push_back(choose(n == 1 ? 4 : 3, "number")); rates.push_back(pois ? 0.3 + i : asked[i] + 0.4 * (asked[i] % 2 ? -1 : 1)); if (asked[i]) for (int b = 0; b < 4; b++) may[b] = may[b] || f[b] > 0; }
  Hooks hooks; VD us = n == 1 ? VD{1e-10, 0.2, 0.25, 0.5, 0.9, TOP} : VD{1e-10, 0.5, TOP}; RandHooks::rndm() = [&] { return pick(us, "random number"); }; size_t at = 0; RandHooks::poisson() = [&](double r) { MC_CHECK(at < rates.size() && r == rates[at], "poisson rate", r); return asked[at++]; }; BinnedEDGenerator g; g.SetPdfs(pdfs); g.SetRates(rates); BinnedED out = pois ? g.PoissonFluctuatedED(named ? "fake" : "") : g.ExpectedRatesED(named ? "fake" : ""); double total = 0; for (int i : asked) total += i; VD c = out.GetBinContents(); MC_OP("rates " << vstr(rates) << (pois ? " poisson" : ""));
  MC_CHECK(out.GetAxes() == pdfs[0].GetAxes() && out.GetObservables() == pdfs[0].GetObservables() && c.size() == 4, "binning", ""); MC_CHECK(out.Integral() == total, "number of entries", out.Integral() << " for " << total); for (int b = 0; b < 4; b++) MC_CHECK(c[b] == std::floor(c[b]) && c[b] >= 0 && (c[b] == 0 || may[b]), "entry in a bin no pdf fills", vstr(c)); MC_CHECK(out.GetName() == (named ? "fake" : binnedName(pois, pdfs)), "name", out.GetName()); auto kept = g.GetPdfs(); for (int i = 0; i < n; i++) MC_CHECK(kept[i].GetBinContents() == pdfs[i].GetBinContents(), "source pdf changed", i); state(Hash().vd(c).h); }
MC_SCENARIO_SPLIT(binned_chances, 3) {
  int n = 1 + choose(2, "pdfs"), shape = choose(2, "shape"), order = choose(3, "order"); bool pois = flip("poisson"); std::vector<BinnedED> pdfs; VD want(4, 0), rates; const int G = 64; for (int i = 0; i < n; i++) { VD f = pick(FILL, "contents"); double s = f[0] + f[1] + f[2] + f[3]; pdfs.push_back(binned("p" + std::to_string(i), shape, f)); rates.push_back(G); for (int b = 0; b < 4; b++) want[b] += G * f[b] / s; }
  Hooks hooks; int at = 0; RandHooks::rndm() = [&] { int k = at++ % G; if (order == 1) k = G - 1 - k; if (order == 2) k = (k * 37) % G; return (k + 0.5) / G; }; RandHooks::poisson() = [](double r) { return (int)r; }; BinnedEDGenerator g; if (flip("used before")) { std::vector<BinnedED> o; for (int i = 0; i < n; i++) o.push_back(binned("o" + std::to_string(i), shape, {0, 3, 0, 1})); g.SetPdfs(o); g.SetRates(VD(n, 3)); (pois ? g.ExpectedRatesED() : g.PoissonFluctuatedED()); at = 0; } g.SetPdfs(pdfs); g.SetRates(rates); VD c = (pois ? g.PoissonFluctuatedED() : g.ExpectedRatesED()).GetBinContents(); MC_CHECK(vclose(c, want, 1e-12, 1e-12), "chances of the bins", vstr(c) << " expected " << vstr(want)); MC_CHECK(g.GetRates() == rates, "rates", ""); state(Hash().vd(want).h); }
MC_SCENARIO(binned_refusals) {
  int k = choose(9, "case"); bool pois = flip("poisson"); std::vector<BinnedED> p = {binned("a", 0, {1, 2, 3, 4}), binned("b", 0, {1, 1, 1, 1})}; VD r = {2, 2}; bool ok = false; switch (k) { case 0: r = {2}; break; case 1: p = {}; r = {}; break; case 2: p[1] = binned("b", 0, {0, 0, 0, 0}); break; case 3: p[1] = binned("b", 1, {1, 1, 1, 1}); break; case 4: p[1] = binned("b", 2, {1}); break; case 5: p[1] = binned("b", 3, {1, 1, 1, 1}); break; case 6: r = {2, -1}; break; case 7: r = {NAN, 1}; break; case 8: ok = true; r = {0, 0}; break; }
  Hooks hooks; RandHooks::rndm() = [] { return 0.7; }; RandHooks::poisson() = [](double x) { return x > 0 ? 1 : 0; }; std::string out; int x = isolated([&]() -> std::string { BinnedEDGenerator g; g.SetPdfs(p); g.SetRates(r); return vstr((pois ? g.PoissonFluctuatedED() : g.ExpectedRatesED()).GetBinContents()); }, &out, 5); MC_CHECK(x == (ok ? 0 : 1), ok ? "refused" : "inputs that make no sense not refused", k << (x == 2 ? " crash " : x == 3 ? " hang " : " ") << out); state(k); }

// numbers and samples of functions
MC_SCENARIO(numbers) {
  int k = choose(4, "kind"); Hooks hooks; double u = 0; RandHooks::rndm() = [&] { return u; }; if (k == 0) { int n = 1 + choose(9, "n"); std::vector<int> c(n, 0); for (int i = 0; i < 40 * n; i++) { u = (i + 0.5) / (40 * n); int s = Rand::Shoot(n); MC_CHECK(s >= 0 && s < n, "integer outside its range", s); c[s]++; } for (int x : c) MC_CHECK(x == 40, "integers with unequal chances", n); u = TOP; MC_CHECK(Rand::Shoot(n) < n, "integer outside its range", n); u = 1e-12; MC_CHECK(Rand::Shoot(n) >= 0, "integer outside its range", n); state(n); }
  else if (k == 1) { double a = pick(VD{-3, 0, 2.5}, "min"), b = a + pick(VD{1, 0.1, 100}, "width"); std::vector<int> c(8, 0); for (int i = 0; i < 64; i++) { u = (i + 0.5) / 64; double x = Rand::UniformRange(a, b); MC_CHECK(x > a && x < b, "outside its range", x); c[(int)((x - a) / (b - a) * 8)]++; } for (int x : c) MC_CHECK(x == 8, "uneven over its range", vstr(std::vector<int>(c))); state(Hash().d(a).d(b).h); }
  else if (k == 2) { double m = pick(VD{1, 0.5, 7}, "max"); for (int i = 0; i < 16; i++) { u = (i + 0.5) / 16; double x = Rand::Uniform(m); MC_CHECK(x > 0 && x < m && close(x, u * m), "outside its range", x); } state(m); }
  else { double m = pick(VD{0, -2, 5}, "mean"), s = pick(VD{1, 0.2, 0}, "sigma"); RandHooks::gaus() = [&](double a, double b) { MC_CHECK(a == m && b == s, "arguments of the normal", a << " " << b); return a + 2 * b; }; MC_CHECK(Rand::Gaus(m, s) == m + 2 * s, "normal number", m); RandHooks::poisson() = [&](double a) { MC_CHECK(a == s, "rate", a); return 7; }; MC_CHECK(Rand::Poisson(s) == 7, "poisson number", s); Rand::SetSeed(17); MC_CHECK(Rand::GetSeed() == 17, "seed", ""); state(Hash().d(m).d(s).h); } }
struct Shape : Function { int k, dims; double lo, w; Shape(int kk, double l, double ww, int d = 1) : k(kk), dims(d), lo(l), w(ww) {} double operator()(const VD &v) const override { double x = (v[0] - lo) / w; switch (k) { case 0: return 1; case 1: return x; case 2: return x < 0.5 ? 0 : 0.75; case 3: return 1 - x; default: return x < 0.25 || x >= 0.75 ? 0.5 : 0; } } size_t GetNDims() const override { return dims; } Function *Clone() const override { return new Shape(*this); }
  void SetParameter(const std::string &, double) override {} double GetParameter(const std::string &) const override { return 0; } void SetParameters(const ParameterDict &) override {} ParameterDict GetParameters() const override { return {}; } size_t GetParameterCount() const override { return 0; } std::set<std::string> GetParameterNames() const override { return {}; } void RenameParameter(const std::string &, const std::string &) override {} std::string GetName() const override { return "shape"; } void SetName(const std::string &) override {} };
MC_SCENARIO(von_neumann) {
  int k = choose(5, "shape"); double lo = pick(VD{0, -2, 3}, "from"), w = pick(VD{1, 5}, "width"); Shape f(k, lo, w); Hooks hooks; const int G = 16; std::vector<int> got(G, 0), want(G, 0); int retry = 0; MC_OP("shape " << k << " from " << lo << " over " << w);
  for (int i = 0; i < G; i++) for (int j = 0; j < G; j++) { double x = (i + 0.5) / G, y = (j + 0.4) / G; if (y * 1.25 <= f({lo + x * w})) want[i]++; }
  for (int i = 0; i < G; i++) for (int j = 0; j < G; j++) { int at = 0; double good = k == 4 ? 0.1 : 0.6; RandHooks::rndm() = [&] { int n = at++; MC_CHECK(n < 100, "no sample", ""); return n == 0 ? (i + 0.5) / G : n == 1 ? (j + 0.4) / G : n % 2 == 0 ? good : 0.01; }; double x = Rand::VonNeumannSample(&f, lo, lo + w, 1.25); MC_CHECK(x > lo && x < lo + w, "sample outside its range", x); MC_CHECK(f({x}) > 0, "sample where the function vanishes", x); if (at > 2) retry++; else got[(int)((x - lo) / w * G)]++; }
  int all = 0; for (int i = 0; i < G; i++) { all += want[i]; MC_CHECK(got[i] == want[i], "chances of the samples", "at " << i << ": " << got[i] << " expected " << want[i]); } MC_CHECK(retry == G * G - all, "attempts", retry); 
  MC_CHECK(throws([&] { Rand::VonNeumannSample(&f, lo, lo, 1); }) && throws([&] { Rand::VonNeumannSample(&f, lo + 1, lo, 1); }) && throws([&] { Rand::VonNeumannSample(&f, lo, lo + 1, 0); }) && throws([&] { Rand::VonNeumannSample(&f, lo, lo + 1, -1); }) && throws([&] { Rand::VonNeumannSample(&f, lo, std::nan(""), 1); }) && throws([&] { Rand::VonNeumannSample(&f, std::nan(""), lo, 1); }) && throws([&] { Rand::VonNeumannSample(&f, lo, lo + 1, std::nan("")); }), "range that makes no sense accepted", ""); Shape two(0, 0, 1, 2); MC_CHECK(throws([&] { Rand::VonNeumannSample(&two, 0, 1, 1); }), "function of two dimensions accepted", ""); state(Hash().d(k).d(lo).d(w).h); }
// hundreds of events drawn from sources of hundreds, in as many goes as it takes
MC_SCENARIO(many) {
  static const std::vector<int> sizes = {10, 100, 255, 256, 257, 1000}; int N = sizes[choose(tier(6, 6), "size")], S = 1 + choose(3, "sources"), mode = choose(3, "mode"), pat = choose(4, "numbers"), goes = pick(std::vector<int>{1, 2, 7}, "goes"); static const VN names = {"id", "e"}; std::vector<OXSXDataSet> data(S); DataSetGenerator g; std::vector<bool> bo, se; VD rates; Hooks hooks; long k = 0; RandHooks::rndm() = [&] { k++; return pat == 0 ? 1e-10 : pat == 1 ? TOP : pat == 2 ? std::fmod(k * 0.6180339887498949 + 1e-3, 1.0) : (k % 2 ? 0.25 : 0.75); };
  for (int s = 0; s < S; s++) { data[s].SetObservableNames(names); for (int i = 0; i < N - s; i++) data[s].AddEntry(Event(VD{10000. * s + i, i + 0.5})); g.AddDataSet(&data[s], 0, mode == SEQUENTIAL); bo.push_back(mode == BOOTSTRAP); se.push_back(mode == SEQUENTIAL); } g.SetBootstrap(bo); g.SetSequentialFlags(se); MC_OP(S << " sources of " << N << " " << modeName(mode) << " in " << goes << " goes, numbers " << pat);
  std::vector<std::set<int>> gone(S); std::vector<int> used(S, 0); for (int go = 0; go < goes; go++) { rates.clear(); std::vector<int> asked, taken; for (int s = 0; s < S; s++) { int a = go + 1 < goes ? (N - s) / goes : N - s - used[s]; if (mode == BOOTSTRAP) a = N + 3 * go; asked.push_back(a); rates.push_back(a); } g.SetExpectedRates(rates); OXSXDataSet d = g.ExpectedRatesDataSet(&taken); MC_CHECK(taken == asked, "many: events taken", ""); size_t want = 0; for (int a : asked) want += a; MC_CHECK(d.GetNEntries() == want, "many: number of events", d.GetNEntries() << " expected " << want);
    size_t at = 0; for (int s = 0; s < S; s++) for (int j = 0; j < asked[s]; j++) { Event e = d.GetEntry(at++); int id = (int)e.GetDatum("id"); MC_CHECK(id / 10000 == s && id % 10000 < N - s && e.GetDatum("e") == id % 10000 + 0.5, "many: event of no source", id); if (mode != BOOTSTRAP) MC_CHECK(gone[s].insert(id).second, "many: drawn twice", id); if (mode == SEQUENTIAL) MC_CHECK(id % 10000 == used[s] + j, "many: order", id); }
    for (int s = 0; s < S; s++) { used[s] += asked[s]; int left = -1; std::unique_ptr<OXSXDataSet> r(g.AllRemainingEvents(s, &left)); if (mode != BOOTSTRAP) { MC_CHECK(left == N - s - used[s] && (int)r->GetNEntries() == left, "many: remaining", left); for (int j = 0; j < left; j++) MC_CHECK(!gone[s].count((int)r->GetEntry(j).GetDatum("id")), "many: drawn event remains", j); } } state(Hash().vd(rates).b(go).b(pat).b(mode).d(N).h); }
  if (mode != BOOTSTRAP) { rates.assign(S, 1); g.SetExpectedRates(rates); MC_CHECK(throws([&] { g.ExpectedRatesDataSet(); }), "many: more events asked than there are", ""); g.Reset(); rates.assign(S, N - S + 1); g.SetExpectedRates(rates); MC_CHECK((int)g.ExpectedRatesDataSet().GetNEntries() == S * (N - S + 1), "many: after a reset", ""); }
}
MC_SCENARIO(many_bins) {
  static const std::vector<int> bins = {10, 100, 257, 1000}; int B = pick(bins, "bins"), np = 1 + choose(tier(4, 12), "pdfs"), pat = choose(3, "contents"); bool two = flip("two axes"), pois = flip("poisson"); AxisCollection c; c.AddAxis(BinAxis("x", 0, B, B)); if (two) c.AddAxis(BinAxis("y", 0, 3, 3)); size_t T = two ? 3 * B : B; std::vector<BinnedED> p; VD rates, want(T, 0); Hooks hooks; long G = 0;
  for (int i = 0; i < np; i++) { BinnedED d("p" + std::to_string(i), c); if (two) d.SetObservables(VN{"x", "y"}); else d.SetObservables(VN{"x"}); VD f(T, 0); long sum = 0; for (size_t b = 0; b < T; b++) { f[b] = pat == 0 ? 1 : pat == 1 ? (b + i) % 3 : (b == (size_t)(i * 37 + 5) % T || b + 1 == T) ? 2 : 0; sum += (long)f[b]; } d.SetBinContents(f); p.push_back(d); G = 2 * sum; rates.push_back(G); for (size_t b = 0; b < T; b++) want[b] += 2 * f[b]; }
  long at = 0; int which = 0; RandHooks::poisson() = [](double r) { return (int)r; }; RandHooks::rndm() = [&] { long n = (long)rates[which]; double u = (at + 0.5) / n; if (++at == n) { at = 0; which++; } return u; }; BinnedEDGenerator g; g.SetPdfs(p); g.SetRates(rates); MC_OP(np << " pdfs of " << T << " bins, contents " << pat); VD got = (pois ? g.PoissonFluctuatedED() : g.ExpectedRatesED()).GetBinContents(); for (size_t b = 0; b < T; b++) MC_CHECK(got[b] == want[b], "many bins: chances", "bin " << b << " got " << got[b] << " expected " << want[b]); state(Hash().vd(want).h);
}

// one generator used for one list of data sets after another
MC_SCENARIO_SPLIT(reuse, 4) {
  static const int sizes[3] = {3, 4, 2}; std::vector<OXSXDataSet> pool; for (int i = 0; i < 3; i++) pool.push_back(source(i, sizes[i])); Hooks hooks; DataSetGenerator g; struct S { int which, mode; std::vector<int> left; bool ordered; }; std::vector<S> now; int shots = 0; RandHooks::rndm() = [&] { shots++; return pick(VD{1e-10, TOP}, "random number"); };
  auto mk = [&](int which, int mode) { S s{which, mode, {}, true}; for (int j = 0; j < sizes[which]; j++) s.left.push_back(10 * which + j); return s; }; auto bootstrap = [&] { std::vector<bool> b; for (auto &s : now) b.push_back(s.mode == BOOTSTRAP); g.SetBootstrap(b); };
  int depth = tier(4, 5); for (int step = 0; step < depth; step++) { int o = choose(6, "op"); switch (o) {
    case 0: { int w = choose(3, "data set"), m = choose(3, "mode"); MC_OP("clear, then add " << w << " " << modeName(m)); g.ClearDataSets(); now.clear(); now.push_back(mk(w, m)); g.AddDataSet(&pool[w], 1, m == SEQUENTIAL); bootstrap(); break; }
    case 1: { int w = choose(3, "data set"), m = choose(2, "mode"); for (auto &s : now) if (s.which == w) prune(); MC_OP("add " << w << " " << modeName(m)); now.push_back(mk(w, m)); g.AddDataSet(&pool[w], 1, m == SEQUENTIAL); bootstrap(); break; }
    case 2: { int k = choose(3, "list"); static const std::vector<std::vector<int>> L = {{1, 0}, {2}, {0, 2, 1}}; int m = choose(2, "mode"); now.clear(); std::vector<DataSet *> p; VD r; std::vector<bool> f; for (int w : L[k]) { int mode = m == 0 ? SEQUENTIAL : now.empty() ? RANDOM : SEQUENTIAL; now.push_back(mk(w, mode)); p.push_back(&pool[w]); r.push_back(1); f.push_back(mode == SEQUENTIAL); } MC_OP("set list " << k << " modes " << m); g.SetDataSets(p); g.SetExpectedRates(r); g.SetSequentialFlags(f); bootstrap(); break; }
    case 3: case 4: { if (now.empty()) prune(); VD r(now.size(), o - 2); bool tooMany = false; for (auto &s : now) tooMany |= s.mode != BOOTSTRAP && (int)s.left.size() < o - 2; if (tooMany) prune(); MC_OP("draw " << o - 2); g.SetExpectedRates(r); shots = 0; std::vector<int> taken; OXSXDataSet d = g.ExpectedRatesDataSet(&taken); std::vector<int> got = ids(d); MC_CHECK(got.size() == now.size() * (o - 2) && taken == std::vector<int>(now.size(), o - 2), "reuse: number of events", istr(got)); size_t at = 0; int least = 0;
      for (auto &s : now) { if (s.mode == RANDOM ? s.left.size() > 1 : s.mode == BOOTSTRAP) least++; for (int j = 0; j < o - 2; j++) { int x = got[at++]; MC_CHECK(x / 10 == s.which, "reuse: event of another source", istr(got)); if (s.mode == BOOTSTRAP) continue; auto it = std::find(s.left.begin(), s.left.end(), x); MC_CHECK(it != s.left.end(), "reuse: event drawn before", istr(got)); if (s.mode == SEQUENTIAL && s.ordered) MC_CHECK(it == s.left.begin(), "reuse: sequential draws", istr(got)); s.left.erase(it); if (s.mode == RANDOM) s.ordered = false; } } MC_CHECK(shots >= least, "reuse: random draws without a random number", shots << " for " << least); break; }
    case 5: { if (now.empty()) prune(); op("reset"); g.Reset(); for (auto &s : now) s = mk(s.which, s.mode); break; } }
    if (!fresh()) continue;
    for (size_t i = 0; i < now.size(); i++) { int n = -1; std::unique_ptr<OXSXDataSet> r(g.AllRemainingEvents(i, &n)); auto v = ids(*r), w = now[i].left; if (!now[i].ordered) std::sort(v.begin(), v.end()); MC_CHECK(v == w && n == (int)w.size(), "reuse: remaining events", istr(v) << "expected " << istr(w)); } std::vector<int> all, want; for (auto &s : now) for (int j = 0; j < sizes[s.which]; j++) want.push_back(10 * s.which + j); if (!now.empty()) MC_CHECK(ids(g.AllValidEvents()) == want, "reuse: all events", "");
    Hash h; for (auto &s : now) { h.b(s.which).b(s.mode); for (int x : s.left) h.d(x); } state(h.h); } }
