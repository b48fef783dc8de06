// C06 cuts and cut log
#include "mc.h"
#include <BoxCut.h>
#include <LineCut.h>
#include <BoolCut.h>
#include <CutCollection.h>
#include <CutLog.h>
#include <Event.h>
#include <memory>
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace mc;
typedef std::vector<double> VD;
typedef std::vector<std::string> VN;
static const VN OBS = {"e", "r", "flag"};
static Event ev(const VD &v) { Event e(v); e.SetObservableNames(&OBS); return e; }

struct MCut { int kind; std::string name, obs; double a, b; std::string side; };  // 0 box 1 line 2 bool
static bool refPass(const MCut &c, double x) {
  if (c.kind == 0) return x > c.a && x < c.b;
  if (c.kind == 1) return c.side == "lower" ? x > c.a : x < c.a;
  return x == c.a;
}
static double val(const VD &v, const std::string &o) { return v[o == "e" ? 0 : o == "r" ? 1 : 2]; }
static Cut *mk(const MCut &c) {
  if (c.kind == 0) return new BoxCut(c.name, c.obs, c.a, c.b);
  if (c.kind == 1) return new LineCut(c.name, c.obs, c.a, c.side);
  return new BoolCut(c.name, c.obs, c.a);
}

MC_SCENARIO(single_cuts) {
  static const VD bounds = {-1.5, 0, 2, 1e6};
  int kind = choose(3, "kind");
  MCut c{kind, "cut" + std::to_string(kind), pick(OBS, "observable"), pick(bounds, "bound"), 0, ""};
  if (kind == 0) { c.b = pick(bounds, "upper"); }
  if (kind == 1) c.side = flip("side") ? "lower" : "upper";
  std::unique_ptr<Cut> k(mk(c));
  bool changed = kind < 2 && flip("changed later");
  if (changed) {
    if (kind == 0) { BoxCut *b = (BoxCut *)k.get(); MC_CHECK(b->GetLowerLimit() == c.a && b->GetUpperLimit() == c.b, "box: limits", ""); c.a += 0.5; c.b += 1; b->SetLowerLimit(c.a); b->SetUpperLimit(c.b); MC_CHECK(b->GetLowerLimit() == c.a && b->GetUpperLimit() == c.b, "box: limits after change", ""); }
    else { LineCut *b = (LineCut *)k.get(); MC_CHECK(b->GetCutValue() == c.a && b->GetSidedness() == c.side, "line: settings", ""); c.a += 0.5; c.side = c.side == "lower" ? "upper" : "lower"; b->SetCutValue(c.a); b->SetSidedness(c.side);
      MC_CHECK(throws([&] { b->SetSidedness("sideways"); }) && throws([&] { b->SetSidedness(""); }), "line: nonsense side accepted", "");
      MC_CHECK(b->GetCutValue() == c.a && b->GetSidedness() == c.side, "line: settings after change", ""); }
  }
  if (kind == 1) MC_CHECK(throws([&] { LineCut l("l", "e", 0, "between"); }), "line: nonsense side accepted", "");
  std::unique_ptr<Cut> cl(k->Clone());
  MC_OP("cut kind " << kind << " on " << c.obs << " at " << c.a << "," << c.b << " " << c.side);
  MC_CHECK(k->GetName() == c.name && cl->GetName() == c.name, "cut: name", "");
  VD xs;
  for (double b : {c.a, c.b, c.a + 0.5, 0.5 * (c.a + c.b), -1e9, 1e9}) { xs.push_back(b); xs.push_back(std::nextafter(b, 1e300)); xs.push_back(std::nextafter(b, -1e300)); }
  for (double x : {std::nan(""), 1e308 * 10, -1e308 * 10, -0.0, 5e-324}) xs.push_back(x);   // not a number is on no side of anything
  for (double x : xs) {
    VD v = {-77, -88, -99};
    for (int f = 0; f < 2; f++) {  // other observables placed inside / outside
      v.assign(3, f ? c.a + 0.25 : -1e7);
      v[c.obs == "e" ? 0 : c.obs == "r" ? 1 : 2] = x;
      Event e = ev(v);
      bool want = refPass(c, x);
      MC_CHECK(k->PassesCut(e) == want, "cut: decision", "kind " << kind << " value " << x << " bounds " << c.a << "," << c.b << c.side);
      MC_CHECK(cl->PassesCut(e) == want, "cut: decision of a clone", "kind " << kind << " value " << x);
    }
  }
  MCut bad = c; bad.obs = "missing";
  std::unique_ptr<Cut> kb(mk(bad));
  MC_CHECK(throws([&] { kb->PassesCut(ev({1, 2, 3})); }), "cut: unknown observable answered", "");
  state(Hash().b(kind).d(c.a).d(c.b).s(c.side).s(c.obs).h);
}

static const std::vector<MCut> &pool() {
  static const std::vector<MCut> p = {{0, "box", "e", 0, 2, ""}, {1, "line", "e", 1, 0, "lower"}, {1, "rcut", "r", 3, 0, "upper"}, {2, "flagged", "flag", 1, 0, ""}};
  return p;
}
static const std::vector<VD> &events() {
  static std::vector<VD> v;
  if (v.empty()) for (double e : {0., 0.5, 1., 1.5, 2.}) for (double r : {2., 3., 4.}) for (double f : {0., 1.}) v.push_back({e, r, f});
  return v;
}
static void checkCol(const CutCollection &c, const std::vector<MCut> &m, const std::string &who) {
  VN names; for (auto &x : m) names.push_back(x.name);
  MC_CHECK(c.GetCutNames() == names, "collection: names", who << " has " << vstr(c.GetCutNames()) << " expected " << vstr(names));
  CutLog log(names); std::vector<int> cnt(m.size(), 0);
  for (auto &v : events()) {
    Event e = ev(v);
    int first = -1; for (size_t i = 0; i < m.size(); i++) if (!refPass(m[i], val(v, m[i].obs))) { first = i; break; }
    bool want = first < 0;
    MC_CHECK(c.PassesCuts(e) == want, "collection: decision", who << " event " << vstr(v));
    MC_CHECK(c.PassesCuts(e, log) == want, "collection: decision with log", who << " event " << vstr(v));
    if (first >= 0) cnt[first]++;
    MC_CHECK(log.GetCutCounts() == cnt, "collection: event logged against the wrong cut", who << " event " << vstr(v) << " counts " << vstr(VD(log.GetCutCounts().begin(), log.GetCutCounts().end())));
    MC_CHECK(e.GetData() == v, "collection: changed the event", who);
  }
}

MC_SCENARIO(collections) {
  std::vector<std::unique_ptr<CutCollection>> c(2);
  std::vector<std::vector<MCut>> m(2);
  c[0].reset(new CutCollection()); c[1].reset(new CutCollection());
  int depth = tier(4, 5);
  for (int s = 0; s < depth; s++) {
    int o = choose(11, "op");
    if (o < 4) {
      MC_OP("add cut " << pool()[o].name << " to A, then change and destroy the original");
      if (!c[0] || m[0].size() > 3) prune();
      std::unique_ptr<Cut> k(mk(pool()[o])); c[0]->AddCut(*k); m[0].push_back(pool()[o]);
      if (pool()[o].kind == 0) ((BoxCut *)k.get())->SetUpperLimit(-100);
      if (pool()[o].kind == 1) ((LineCut *)k.get())->SetCutValue(pool()[o].side == "lower" ? 1e9 : -1e9);
    } else switch (o) {
      case 4: op("copy A to B"); if (!c[0]) prune(); c[1].reset(new CutCollection(*c[0])); m[1] = m[0]; break;
      case 5: op("copy B to A"); if (!c[1]) prune(); c[0].reset(new CutCollection(*c[1])); m[0] = m[1]; break;
      case 6: op("assign A to B"); if (!c[0] || !c[1]) prune(); *c[1] = *c[0]; m[1] = m[0]; break;
      case 7: op("assign B to A"); if (!c[0] || !c[1]) prune(); *c[0] = *c[1]; m[0] = m[1]; break;
      case 8: { op("assign A to itself"); if (!c[0]) prune(); CutCollection &r = *c[0]; *c[0] = r; break; }
      case 9: op("destroy A"); if (!c[0] || !c[1]) prune(); c[0].reset(); m[0].clear(); break;
      case 10: op("new A"); if (c[0] && m[0].empty()) prune(); c[0].reset(new CutCollection()); m[0].clear(); break;
    }
    if (!fresh()) continue;
    Hash h;
    for (int i = 0; i < 2; i++) { h.b(c[i] ? 1 : 0); for (auto &x : m[i]) h.s(x.name); if (c[i]) checkCol(*c[i], m[i], i ? "B" : "A"); }
    state(h.h);
  }
}

// a printed table: name, counts, percentages
struct Row { std::string name; double cut, cutp, rem, remp; };
static std::vector<Row> parse(const std::string &s) {
  std::vector<Row> r; std::stringstream ss(s); std::string l; bool head = true;
  while (std::getline(ss, l)) {
    if (head) { head = false; continue; }
    std::stringstream ls(l); Row x;
    if (ls >> x.name >> x.cut >> x.cutp >> x.rem >> x.remp) r.push_back(x);
  }
  return r;
}
MC_SCENARIO(cut_log) {
  int n = 1 + choose(3, "cuts");
  VN names; for (int i = 0; i < n; i++) names.push_back("c" + std::to_string(i));
  CutLog log(names);
  std::vector<int> cnt(n, 0); int total = 0;
  int depth = tier(5, 7);
  for (int s = 0; s < depth; s++) {
    int o = choose(n + 3, "op");
    if (o < n) { MC_OP("cut by " << o); log.LogCut(o); cnt[o]++; total++; }
    else if (o == n) { op("pass"); log.LogPass(); total++; }
    else if (o == n + 1) { op("cut by an unknown cut"); MC_CHECK(throws([&] { log.LogCut(n); }) && throws([&] { log.LogCut((size_t)-1); }), "log: unknown cut accepted", ""); }
    else { op("report"); if (total) { log.CalculateMeta(); log.AsString(); } }
    if (!fresh()) continue;
    MC_CHECK(log.GetCutCounts() == cnt && log.GetCutNames() == names, "log: counts", "");
    if (total) {
      CutLog l(log);
      l.CalculateMeta();
      VD p = l.GetCutPercentages();
      MC_CHECK(p.size() == (size_t)n, "log: percentages length", p.size());
      auto rows = parse(l.AsString());
      MC_CHECK(rows.size() == (size_t)n, "log: table rows", rows.size());
      int rem = total;
      for (int i = 0; i < n; i++) {
        rem -= cnt[i];
        MC_CHECK(close(p[i], 100. * cnt[i] / total), "log: percentage", "cut " << i << " " << p[i] << "% expected " << 100. * cnt[i] / total);
        MC_CHECK(rows[i].name == names[i] && rows[i].cut == cnt[i] && rows[i].rem == rem, "log: table counts", "cut " << i << ": " << rows[i].cut << " cut, " << rows[i].rem << " remaining, expected " << cnt[i] << " and " << rem);
        MC_CHECK(close(rows[i].cutp, 100. * cnt[i] / total, 0.01, 0.01) && close(rows[i].remp, 100. * rem / total, 0.01, 0.01), "log: table percentages", "cut " << i);
      }
    }
    Hash h; h.b(n).b(total); for (int x : cnt) h.b(x); state(h.h);
  }
  if (total && choose(2, "save")) {
    std::string f = scratch() + "/log.txt";
    log.SaveAs("My Title", f);
    std::ifstream in(f); std::stringstream ss; ss << in.rdbuf();
    MC_CHECK(ss.str().find("My Title") != std::string::npos && ss.str().find(log.AsString()) != std::string::npos, "log: saved text", ss.str());
    ::unlink(f.c_str());
    MC_CHECK(throws([&] { log.SaveAs("t", scratch() + "/missing/dir/log.txt"); }), "log: unwritable file accepted", "");
  }
}

// logs of many events, collections of many cuts
MC_SCENARIO(many_logged) {
  static const std::vector<int> totals = {99, 100, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 70000, 100001, 1000003}; int N = totals[choose(tier(13, 14), "events")], n = 1 + choose(3, "cuts"), pat = choose(4, "pattern");
  VN names; for (int i = 0; i < n; i++) names.push_back("c" + std::to_string(i)); CutLog log(names); std::vector<int> cnt(n, 0);
  for (int i = 0; i < N; i++) { int w = pat == 0 ? 0 : pat == 1 ? n - 1 : pat == 2 ? i % (n + 1) : (i % 1000 == 7 ? 0 : n); if (w < n) { log.LogCut(w); cnt[w]++; } else log.LogPass(); }
  MC_OP(N << " events, " << n << " cuts, pattern " << pat);
  MC_CHECK(log.GetCutCounts() == cnt, "many: counts", "first " << log.GetCutCounts().at(0) << " expected " << cnt[0]);
  log.CalculateMeta(); VD p = log.GetCutPercentages(); auto rows = parse(log.AsString()); MC_CHECK(rows.size() == (size_t)n && p.size() == (size_t)n, "many: rows", log.AsString()); int rem = N;
  for (int i = 0; i < n; i++) { rem -= cnt[i]; MC_CHECK(close(p[i], 100. * cnt[i] / N), "many: percentage", p[i] << " expected " << 100. * cnt[i] / N); MC_CHECK(rows[i].name == names[i] && std::fabs(rows[i].cut - cnt[i]) <= 1e-5 * N && std::fabs(rows[i].rem - rem) <= 1e-5 * N && close(rows[i].cutp, 100. * cnt[i] / N, 0.01, 0.01) && close(rows[i].remp, 100. * rem / N, 0.01, 0.01), "many: table", log.AsString()); }
  state(Hash().b(N).vd(cnt).h);
}
MC_SCENARIO(many_cuts) {
  int n = 1 + choose(tier(20, 40), "cuts"), dup = choose(2, "same observable"), copy = choose(3, "copied");
  std::vector<MCut> m; CutCollection c;
  for (int i = 0; i < n; i++) { MCut x; std::string nm = "c" + std::to_string(i); double off = 0.5 * i; if (dup) x = i % 2 ? MCut{0, nm, "e", -1 - off, 100 - off, ""} : MCut{1, nm, "e", -off - 2, 0, "lower"}; else x = i % 3 == 0 ? MCut{1, nm, OBS[i % 2], 100 - off, 0, "upper"} : i % 3 == 1 ? MCut{0, nm, OBS[i % 2], -1 - off, 200 - off, ""} : MCut{2, nm, "flag", 1, 0, ""}; m.push_back(x); std::unique_ptr<Cut> k(mk(x)); c.AddCut(*k); }
  std::unique_ptr<CutCollection> cc; if (copy == 1) cc.reset(new CutCollection(c)); if (copy == 2) { cc.reset(new CutCollection()); *cc = c; }
  const CutCollection &u = copy ? *cc : c; VN names; for (auto &x : m) names.push_back(x.name);
  MC_OP(n << " cuts, " << dup << " copy " << copy); MC_CHECK(u.GetCutNames() == names, "many cuts: names", vstr(u.GetCutNames()));
  CutLog log(names); std::vector<int> cnt(n, 0); int all = 0;
  for (double e = -22; e <= 102; e += 0.75) for (double r : {-50., 0.25, 91.25, 99.75, 150.}) for (double f : {0., 1.}) {
    VD v = {e, r, f}; int first = -1; for (int i = 0; i < n; i++) if (!refPass(m[i], val(v, m[i].obs))) { first = i; break; }
    Event x = ev(v); MC_CHECK(u.PassesCuts(x) == (first < 0) && u.PassesCuts(x, log) == (first < 0), "many cuts: decision", "event " << vstr(v) << " first failing " << first); all++;
    if (first >= 0) cnt[first]++;
  }
  MC_CHECK(log.GetCutCounts() == cnt, "many cuts: event logged against the wrong cut", n); log.CalculateMeta(); for (int i = 0; i < n; i++) MC_CHECK(close(log.GetCutPercentages()[i], 100. * cnt[i] / all), "many cuts: percentage", i);
  auto rows = parse(log.AsString()); MC_CHECK(rows.size() == (size_t)n, "many cuts: rows", log.AsString()); int rem = all; for (int i = 0; i < n; i++) { rem -= cnt[i]; MC_CHECK(rows[i].name == names[i] && rows[i].cut == cnt[i] && rows[i].rem == rem, "many cuts: table", log.AsString()); }
  state(Hash().b(n).vd(cnt).h);
}
