// C07 filling distributions and counting experiments
#include "mc.h"
#include <DistFiller.h>
#include <BinnedED.h>
#include <OXSXDataSet.h>
#include <CutLog.h>
#include <CutCollection.h>
#include <LineCut.h>
#include <BoxCut.h>
#include <EventScale.h>
#include <EventShift.h>
#include <EventSystematicManager.h>
#include <CountingExperiment.h>
#include <Event.h>
#include <sstream>
#include <fstream>
#include <memory>
using namespace mc;
typedef std::vector<double> VD;
typedef std::vector<std::string> VN;

static const VN OBS = {"e", "r"};
static const std::vector<VD> &kinds() { static const std::vector<VD> k = {{0.5, 0.25}, {0.5, 1.5}, {1.5, 0.25}, {1.75, 1.5}, {7, -3}}; return k; }

// cuts: each is (observable index, low, high) open interval
struct C { std::string name; int o; double lo, hi; };
static const std::vector<C> &cutPool() { static const std::vector<C> p = {{"eBox", 0, 1, 4}, {"rLow", 1, 0.5, 1e300}, {"eHigh", 0, -1e300, 2.6}}; return p; }
static void addCut(CutCollection &cc, const C &c) {
  if (c.hi > 1e200) cc.AddCut(LineCut(c.name, OBS[c.o], c.lo, "lower"));
  else if (c.lo < -1e200) cc.AddCut(LineCut(c.name, OBS[c.o], c.hi, "upper"));
  else cc.AddCut(BoxCut(c.name, OBS[c.o], c.lo, c.hi));
}
static int failing(const std::vector<C> &cs, const VD &v) {
  for (size_t i = 0; i < cs.size(); i++) if (!(v[cs[i].o] > cs[i].lo && v[cs[i].o] < cs[i].hi)) return (int)i;
  return -1;
}
// event systematics: kind 0 none 1 shift e, 2 scale e, 3 shift r
struct S { int kind, o; double v; };
static const std::vector<std::vector<S>> &sysPool() {
  static const std::vector<std::vector<S>> p = {{}, {{1, 0, 1}}, {{2, 1, 2}}, {{1, 0, 1}, {2, 0, 2}}, {{2, 0, 2}, {1, 0, 1}}, {{1, 1, 0.5}, {2, 0, 2}, {1, 1, -1}}};
  return p;
}
static VD applySys(const std::vector<S> &s, VD v) { for (auto &x : s) { if (x.kind == 1) v[x.o] += x.v; else v[x.o] *= x.v; } return v; }
struct SysSet {
  std::vector<std::unique_ptr<EventSystematic>> own; EventSystematicManager man;
  SysSet(const std::vector<S> &s) { for (auto &x : s) add(x); }
  EventSystematic *add(const S &x) {
    EventSystematic *p;
    if (x.kind == 1) { auto *q = new EventShift("sh"); q->SetShift(x.v); p = q; } else { auto *q = new EventScale("sc"); q->SetScale(x.v); p = q; }
    p->SetOutObservables(VN{OBS[x.o]}); p->SetInObservables(VN{OBS[x.o]});
    own.emplace_back(p); man.Add(p); return p;
  }
};
static OXSXDataSet mkData(const std::vector<int> &ks) {
  OXSXDataSet d; d.SetObservableNames(OBS);
  for (int k : ks) d.AddEntry(Event(kinds()[k]));
  return d;
}
static const VD E_EDGES = {0, 1, 2, 3}, R_EDGES = {0, 1, 2};
static size_t bin1(const VD &edges, double v) { size_t b = 0; while (b + 2 < edges.size() && v >= edges[b + 1]) b++; return b; }
static BinAxis axis(int o) { const VD &e = o ? R_EDGES : E_EDGES; VD lo(e.begin(), e.end() - 1), hi(e.begin() + 1, e.end()); return o ? BinAxis("r", lo, hi) : BinAxis("e", 0, 3, 3); }

MC_SCENARIO(fill) {
  static const std::vector<std::vector<int>> layouts = {{0}, {1}, {0, 1}, {1, 0}};
  const std::vector<int> &lay = pick(layouts, "observables");
  AxisCollection ac; VN names; for (int o : lay) { ac.AddAxis(axis(o)); names.push_back(OBS[o]); }
  int nc = choose(5, "cuts");
  std::vector<C> cs;
  if (nc == 1) cs = {cutPool()[0]}; if (nc == 2) cs = {cutPool()[1], cutPool()[0]}; if (nc == 3) cs = {cutPool()[0], cutPool()[1]}; if (nc == 4) cs = {cutPool()[2], cutPool()[1], cutPool()[0]};
  int sk = choose((int)sysPool().size(), "systematics");
  const std::vector<S> &ss = sysPool()[sk];
  int n = choose(tier(3, 4) + 1, "events");
  std::vector<int> ks; for (int i = 0; i < n; i++) ks.push_back(choose((int)kinds().size(), "event"));
  int lim = choose(n + 2, "limit");   // 0..n, n+1 = all
  bool prefilled = flip("prefilled");
  MC_OP("fill " << vstr(names) << " cuts " << nc << " systematics " << sk << " events " << vstr(VD(ks.begin(), ks.end())) << " limit " << (lim > n ? -1 : lim));
  OXSXDataSet data = mkData(ks);
  CutCollection cc; VN cutNames; for (auto &c : cs) { addCut(cc, c); cutNames.push_back(c.name); }
  SysSet sm(ss);
  BinnedED a("a", ac); a.SetObservables(names);
  VD want(a.GetNBins(), 0);
  if (prefilled) { for (size_t i = 0; i < a.GetNBins(); i++) { a.SetBinContent(i, 10 + i); want[i] = 10 + i; } }
  BinnedED b(a);
  CutLog log(cutNames);
  std::vector<int> cnt(cs.size(), 0); int used = lim > n ? n : lim;
  for (int i = 0; i < used; i++) {
    VD v = applySys(ss, kinds()[ks[i]]);
    int f = failing(cs, v);
    if (f >= 0) { cnt[f]++; continue; }
    size_t bin = 0; for (int o : lay) bin = bin * (o ? R_EDGES.size() - 1 : E_EDGES.size() - 1) + bin1(o ? R_EDGES : E_EDGES, v[o]);
    want[bin] += 1;
  }
  int nEv = lim > n ? -1 : lim;
  bool simple = nc == 0 && sk == 0 && nEv < 0;
  if (simple && !prefilled) DistFiller::FillDist(a, data);
  else if (sk == 0 && nEv < 0) DistFiller::FillDist(a, data, cc);
  else if (nEv < 0) DistFiller::FillDist(a, data, cc, sm.man);
  else DistFiller::FillDist(a, data, cc, sm.man, nEv);
  MC_CHECK(vclose(a.GetBinContents(), want), "fill: contents", "got " << vstr(a.GetBinContents()) << " expected " << vstr(want));
  if (sk == 0 && nEv < 0) DistFiller::FillDist(b, data, cc, log); else DistFiller::FillDist(b, data, cc, log, sm.man, nEv);
  MC_CHECK(vclose(b.GetBinContents(), want), "fill: contents with a log", "got " << vstr(b.GetBinContents()) << " expected " << vstr(want));
  MC_CHECK(log.GetCutCounts() == cnt && log.GetCutNames() == cutNames, "fill: cut record", "");
  if (used > 0) {
    log.CalculateMeta(); VD p = log.GetCutPercentages();
    for (size_t i = 0; i < cs.size(); i++) MC_CHECK(close(p.at(i), 100. * cnt[i] / used), "fill: cut record does not account for the events looked at", p.at(i) << " for cut " << i);
  }
  MC_CHECK(data.GetNEntries() == ks.size() && data.GetObservableNames() == OBS, "fill: data set changed", "");
  for (int i = 0; i < n; i++) MC_CHECK(data.GetEntry(i).GetData() == kinds()[ks[i]], "fill: data set changed", "event " << i);
  state(Hash().vd(want).vd(cnt).b(sk).b(nc).h);
}

// ---- counting experiments: any order of set-up and counting
struct Row { std::string name; double cut, cutp, rem, remp; };
struct Parsed { std::vector<std::vector<Row>> tables; std::map<std::string, std::pair<double, double>> rates; double total, totalErr, eff, obs; };
static Parsed parse(const std::string &s) {
  Parsed p; p.total = p.totalErr = p.eff = p.obs = -1; std::stringstream ss(s); std::string l; bool inTable = false;
  while (std::getline(ss, l)) {
    if (l.compare(0, 4, "Cut ") == 0) { p.tables.push_back({}); inTable = true; continue; }
    std::stringstream ls(l); Row x;
    if (inTable && (ls >> x.name >> x.cut >> x.cutp >> x.rem >> x.remp)) { p.tables.back().push_back(x); continue; }
    inTable = false;
    std::stringstream l2(l); std::string w, pm; double a, b;
    if (l.compare(0, 7, "Total :") == 0) { std::string c; l2 >> w >> c >> p.total >> pm >> p.totalErr; }
    else if (l.compare(0, 17, "Signal Efficiency") == 0) { std::string c; l2 >> w >> c >> p.eff; }
    else if (l.compare(0, 9, "Observed:") == 0) l2 >> w >> p.obs;
    else if (l2 >> w >> a >> pm >> b && pm == "+-") p.rates[w] = {a, b};
  }
  return p;
}
MC_SCENARIO(counting) {
  static const std::vector<std::vector<int>> sets = {{0, 1, 2, 3}, {2, 3, 3}, {1, 1, 0, 2, 4}, {3}};
  std::vector<OXSXDataSet> ds; for (auto &k : sets) ds.push_back(mkData(k));
  CountingExperiment exp; SysSet sys({});
  std::vector<C> cs; std::vector<S> ss;
  std::vector<std::pair<int, double>> bg; VN bgNames; int sig = -1;
  // the model of the result
  struct L { std::vector<C> cs; std::vector<int> cnt; int n, pass; };
  auto count = [&](int set) { L l; l.cs = cs; l.cnt.assign(cs.size(), 0); l.n = sets[set].size(); l.pass = 0; for (int k : sets[set]) { int f = failing(cs, applySys(ss, kinds()[k])); if (f < 0) l.pass++; else l.cnt[f]++; } return l; };
  std::vector<L> rb; VD rates, errs; VN rbNames; bool haveSig = false, haveDat = false; L rs, rd; double eff = -1; int obs = -1;
  auto report = [&](const CountingResult &r, const VD &rates, const VD &errs) {
      double tot = 0; for (double x : rates) tot += x;
      CountingResult c(r); Parsed p = parse(c.AsString());
      std::vector<const L *> ls; for (auto &x : rb) ls.push_back(&x); ls.push_back(&rs); ls.push_back(&rd);
      size_t t = 0;
      for (auto *l : ls) {
        if (l->cs.empty()) continue;
        MC_CHECK(t < p.tables.size(), "counting: report lacks a cut record", c.AsString());
        auto &tab = p.tables[t++]; int rem = l->n;
        MC_CHECK(tab.size() == l->cs.size(), "counting: cut record in the report", c.AsString());
        for (size_t i = 0; i < tab.size(); i++) { rem -= l->cnt[i]; MC_CHECK(tab[i].name == l->cs[i].name && tab[i].cut == l->cnt[i] && tab[i].rem == rem && std::fabs(tab[i].cutp - 100. * l->cnt[i] / l->n) < 0.2, "counting: cut record in the report", c.AsString()); }
      }
      MC_CHECK(t == p.tables.size(), "counting: extra cut record in the report", c.AsString());
      MC_CHECK(p.rates.size() == rates.size(), "counting: rates in the report", c.AsString());
      for (size_t i = 0; i < rates.size(); i++) { MC_CHECK(p.rates.count(rbNames[i]), "counting: rates in the report", c.AsString()); auto q = p.rates[rbNames[i]]; MC_CHECK(std::fabs(q.first - rates[i]) < 0.1 && std::fabs(q.second - errs[i]) < 0.1, "counting: rates in the report", c.AsString()); }
      MC_CHECK(std::fabs(p.total - tot) < 0.1 && p.obs == obs && std::fabs(p.eff - eff) < 0.01, "counting: summary in the report", c.AsString());
  };
  int depth = tier(5, 6), ncut = 0, nsys = 0;
  for (int s = 0; s < depth; s++) {
    switch (choose(8, "op")) {
      case 0: { op("add cut"); if (ncut == 2) prune(); const C &c = cutPool()[ncut++]; exp.AddCut(c.hi > 1e200 ? (const Cut &)LineCut(c.name, OBS[c.o], c.lo, "lower") : (const Cut &)BoxCut(c.name, OBS[c.o], c.lo, c.hi)); cs.push_back(c); break; }
      case 1: { op("add systematic"); if (nsys == 2) prune(); S x = nsys++ ? S{2, 0, 2} : S{1, 0, 1}; exp.AddSystematic(sys.add(x), "s"); ss.push_back(x); break; }
      case 2: { op("add background"); if (bg.size() == 2) prune(); int i = bg.size(); double r = i ? 3.5 : 20; exp.AddBackground(&ds[i], r, "bg" + std::to_string(i)); bg.push_back({i, r}); bgNames.push_back("bg" + std::to_string(i)); break; }
      case 3: op("set signal"); sig = sig == 2 ? 3 : 2; exp.SetSignal(&ds[sig], "sig" + std::to_string(sig)); break;
      case 4: op("count backgrounds"); exp.CountBackgrounds(); rb.clear(); rates.clear(); errs.clear(); rbNames = bgNames;
        for (auto &b : bg) { L l = count(b.first); rb.push_back(l); rates.push_back(b.second * l.pass / l.n); errs.push_back(b.second * std::sqrt(l.pass) / l.n); } break;
      case 5: op("count signal"); if (sig < 0) { MC_CHECK(throws([&] { exp.CountSignal(); }), "counting: signal counted before it is set", ""); break; }
        exp.CountSignal(); rs = count(sig); eff = 1. * rs.pass / rs.n; haveSig = true; break;
      case 6: op("count data"); exp.CountData(&ds[0]); rd = count(0); obs = rd.pass; haveDat = true; break;
      case 7: op("count other data"); exp.CountData(&ds[2]); rd = count(2); obs = rd.pass; haveDat = true; break;
    }
    if (!fresh()) continue;
    const CountingResult &r = exp.GetCountingResult();
    double tot = 0, e2 = 0; for (double x : rates) tot += x; for (double x : errs) e2 += x * x;
    MC_CHECK(vclose(r.GetExpectedRates(), rates) && vclose(r.GetExpectedRateErrors(), errs), "counting: expected rates", "got " << vstr(r.GetExpectedRates()) << "+-" << vstr(r.GetExpectedRateErrors()) << " expected " << vstr(rates) << "+-" << vstr(errs));
    MC_CHECK(close(r.GetExpectedCounts(), tot) && close(r.GetExpectedCountError(), std::sqrt(e2)), "counting: total expectation", "");
    if (haveDat) MC_CHECK(r.GetObservedCounts() == obs, "counting: observed counts", "got " << r.GetObservedCounts() << " expected " << obs);
    if (haveSig) MC_CHECK(close(r.GetSignalEfficiency(), eff), "counting: signal efficiency", "got " << r.GetSignalEfficiency() << " expected " << eff);
    Hash h; h.vd(rates).vd(errs).b(obs).d(eff).b(cs.size()).b(ss.size()).b(bg.size()).b(sig);
    state(h.h);
    if (haveSig && haveDat && s == depth - 1) report(r, rates, errs);
  }
  // whatever was set up: counted once more, all of it
  if (sig < 0) { sig = 3; exp.SetSignal(&ds[sig], "sig3"); }
  exp.CountBackgrounds(); exp.CountSignal(); exp.CountData(&ds[2]); rb.clear(); rates.clear(); errs.clear(); rbNames = bgNames; for (auto &b : bg) { L l = count(b.first); rb.push_back(l); rates.push_back(b.second * l.pass / l.n); errs.push_back(b.second * std::sqrt(l.pass) / l.n); }
  rs = count(sig); eff = 1. * rs.pass / rs.n; rd = count(2); obs = rd.pass; report(exp.GetCountingResult(), rates, errs);
  for (size_t i = 0; i < sets.size(); i++) for (size_t j = 0; j < sets[i].size(); j++) MC_CHECK(ds[i].GetEntry(j).GetData() == kinds()[sets[i][j]], "counting: data set changed", "");
}

// thousands of events, limits at every place a counter could turn over
MC_SCENARIO(many) {
  static const std::vector<int> evs = {10, 100, 256, 257, 1000, 4097, 20000}; int N = evs[choose(tier(6, 7), "events")];
  static const std::vector<int> lims = {-1, 0, 1, 9, 10, 11, 99, 100, 101, 128, 255, 256, 257, 999, 1000, 1024, 4096, 4097, 5000, 20001}; int lim = pick(lims, "limit"), nc = choose(3, "cuts"), sk = choose((int)sysPool().size(), "systematics");
  std::vector<C> cs; if (nc == 1) cs = {cutPool()[1], cutPool()[0]}; if (nc == 2) cs = {cutPool()[2], cutPool()[1], cutPool()[0]};
  std::vector<int> ks; for (int i = 0; i < N; i++) ks.push_back((i * i + i / 7) % (int)kinds().size()); const auto &ss = sysPool()[sk];
  OXSXDataSet data = mkData(ks); CutCollection cc; VN cn; for (auto &c : cs) { addCut(cc, c); cn.push_back(c.name); } SysSet sm(ss);
  AxisCollection ac; ac.AddAxis(axis(1)); ac.AddAxis(axis(0)); BinnedED a("a", ac); a.SetObservables(VN{"r", "e"}); BinnedED b(a); VD want(a.GetNBins(), 0); CutLog log(cn); std::vector<int> cnt(cs.size(), 0);
  if (lim > N) prune(); int used = lim < 0 ? N : lim; MC_OP(N << " events, limit " << lim << " cuts " << nc << " systematics " << sk);
  for (int i = 0; i < used; i++) { VD v = applySys(ss, kinds()[ks[i]]); int f = failing(cs, v); if (f >= 0) { cnt[f]++; continue; } want[bin1(R_EDGES, v[1]) * (E_EDGES.size() - 1) + bin1(E_EDGES, v[0])] += 1; }
  DistFiller::FillDist(a, data, cc, sm.man, lim); DistFiller::FillDist(b, data, cc, log, sm.man, lim);
  MC_CHECK(vclose(a.GetBinContents(), want) && vclose(b.GetBinContents(), want), "many: contents", "got " << vstr(a.GetBinContents()) << " and " << vstr(b.GetBinContents()) << " expected " << vstr(want));
  MC_CHECK(log.GetCutCounts() == cnt, "many: cut record", ""); if (used) { log.CalculateMeta(); for (size_t i = 0; i < cs.size(); i++) MC_CHECK(close(log.GetCutPercentages()[i], 100. * cnt[i] / used), "many: cut record", i); }
  state(Hash().vd(want).vd(cnt).h);
}
MC_SCENARIO(many_backgrounds) {
  int nb = choose(tier(14, 30), "backgrounds"), nc = choose(3, "cuts"), sk = choose((int)sysPool().size(), "systematics"), again = choose(2, "counted twice"); std::vector<C> cs; for (int i = 0; i < nc; i++) cs.push_back(cutPool()[2 - i]); const auto &ss = sysPool()[sk];
  std::vector<OXSXDataSet> ds; std::vector<std::vector<int>> ks; for (int j = 0; j < nb + 2; j++) { std::vector<int> k; for (int i = 0; i < 5 + 37 * j; i++) k.push_back((i * (j + 2) + i / 3) % (int)kinds().size()); ks.push_back(k); ds.push_back(mkData(k)); }
  CountingExperiment exp; SysSet own({}); for (auto &c : cs) exp.AddCut(c.hi > 1e200 ? (const Cut &)LineCut(c.name, OBS[c.o], c.lo, "lower") : c.lo < -1e200 ? (const Cut &)LineCut(c.name, OBS[c.o], c.hi, "upper") : (const Cut &)BoxCut(c.name, OBS[c.o], c.lo, c.hi));
  for (auto &s : ss) exp.AddSystematic(own.add(s), "s"); auto pass = [&](int j) { int n = 0; for (int k : ks[j]) if (failing(cs, applySys(ss, kinds()[k])) < 0) n++; return n; };
  VD rates, errs; double tot = 0, e2 = 0;
  for (int j = 0; j < nb; j++) { double r = 3.5 + 11 * j; exp.AddBackground(&ds[j], r, "bg" + std::to_string(j)); double n = ks[j].size(), p = pass(j); rates.push_back(r * p / n); errs.push_back(r * std::sqrt(p) / n); tot += rates[j]; e2 += errs[j] * errs[j]; }
  exp.SetSignal(&ds[nb], "sig"); MC_OP(nb << " backgrounds, cuts " << nc << " systematics " << sk);
  for (int i = 0; i <= again; i++) { exp.CountBackgrounds(); exp.CountSignal(); exp.CountData(&ds[nb + 1]); }
  const CountingResult &r = exp.GetCountingResult(); MC_CHECK(vclose(r.GetExpectedRates(), rates) && vclose(r.GetExpectedRateErrors(), errs), "many backgrounds: rates", vstr(r.GetExpectedRates()) << " expected " << vstr(rates));
  MC_CHECK(close(r.GetExpectedCounts(), tot) && close(r.GetExpectedCountError(), std::sqrt(e2)) && r.GetObservedCounts() == pass(nb + 1) && close(r.GetSignalEfficiency(), 1. * pass(nb) / ks[nb].size()), "many backgrounds: totals", r.GetExpectedCounts() << " expected " << tot);
  CountingResult c(r); Parsed p = parse(c.AsString()); MC_CHECK((int)p.rates.size() == nb && std::fabs(p.total - tot) < 0.1 + 1e-5 * tot && p.obs == pass(nb + 1), "many backgrounds: report", c.AsString());
  for (int j = 0; j < nb; j++) { std::string nm = "bg" + std::to_string(j); MC_CHECK(p.rates.count(nm) && std::fabs(p.rates[nm].first - rates[j]) < 0.1 && std::fabs(p.rates[nm].second - errs[j]) < 0.1, "many backgrounds: rates in the report", c.AsString()); }
  state(Hash().vd(rates).vd(errs).h);
}

// the result of a count assembled by hand, emptied and assembled again
MC_SCENARIO(results) {
  static const VN names = {"b1", "a", "zz"}; auto log = [](int k) { VN n; for (int i = 0; i <= k; i++) n.push_back("cut" + std::to_string(i)); CutLog l(n); for (int i = 0; i < 3 + k; i++) { if (i % 2) l.LogPass(); else l.LogCut(i % (k + 1)); } l.CalculateMeta(); return l; };
  struct B { int k; double rate, err; }; std::vector<B> bs; double eff = -1; int obs = -1, sigLog = -1, datLog = -1; CountingResult r; int depth = tier(5, 6);
  for (int step = 0; step < depth; step++) { int o = choose(7, "op"); switch (o) {
    case 0: case 1: { if (bs.size() == 3) prune(); B b{(int)(bs.size() + o) % 3, o ? 12.5 : 0.25 + bs.size(), o ? 3. : 0.5}; for (auto &x : bs) if (x.k == b.k) prune(); MC_OP("background " << names[b.k]); bs.push_back(b); r.AddBackground(b.rate, names[b.k], b.err, log(b.k)); break; }
    case 2: op("clear the backgrounds"); r.ClearBackgrounds(); bs.clear(); break;
    case 3: eff = eff == 0.5 ? 0.25 : 0.5; sigLog = (int)(eff * 4) % 3; MC_OP("signal " << eff); r.SetSignal(eff, "sig", log(sigLog)); break;
    case 4: datLog = datLog == 1 ? 2 : 1; op("log of the data"); r.SetDataLog(log(datLog)); break;
    case 5: obs = obs == 17 ? 0 : 17; MC_OP("observed " << obs); r.SetObservedCounts(obs); break;
    case 6: { op("copy"); CountingResult c(r); c.AddBackground(99, "other", 1, log(0)); c.SetObservedCounts(4); CountingResult d; d = c; c.ClearBackgrounds(); MC_CHECK(close(d.GetExpectedCounts(), r.GetExpectedCounts() + 99), "results: copy", d.GetExpectedCounts()); break; } }
    VD rates, errs; double sum = 0, sq = 0; for (auto &b : bs) { rates.push_back(b.rate); errs.push_back(b.err); sum += b.rate; sq += b.err * b.err; }
    MC_CHECK(r.GetExpectedRates() == rates && r.GetExpectedRateErrors() == errs && close(r.GetExpectedCounts(), sum) && close(r.GetExpectedCountError(), std::sqrt(sq)) && r.GetObservedCounts() == obs && r.GetSignalEfficiency() == eff, "results: numbers", r.GetExpectedCounts() << " expected " << sum);
    CountingResult n; for (auto &b : bs) n.AddBackground(b.rate, names[b.k], b.err, log(b.k)); if (sigLog >= 0) n.SetSignal(eff, "sig", log(sigLog)); if (datLog >= 0) n.SetDataLog(log(datLog)); if (obs >= 0) n.SetObservedCounts(obs); MC_CHECK(n.AsString() == r.AsString(), "results: report", r.AsString() << "\nexpected\n" << n.AsString()); Parsed p = parse(r.AsString()); MC_CHECK(p.rates.size() == bs.size() && std::fabs(p.total - sum) < 1e-3 && p.obs == obs, "results: report", r.AsString());
    if (step + 1 == depth && depth) { std::string f = scratch() + "/r.txt"; r.SaveAs(f); std::ifstream in(f); std::stringstream t; t << in.rdbuf(); std::string s = t.str(), a = r.AsString(); MC_CHECK(s.size() > a.size() && s.compare(s.size() - a.size(), a.size(), a) == 0, "results: saved report", s); }
    Hash h; for (auto &b : bs) h.b(b.k).d(b.rate); state(h.d(eff).b(obs + 1).b(datLog + 1).h); }
}
