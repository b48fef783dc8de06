// C05 events, observable sets and data sets
#include "mc.h"
#include <OXSXDataSet.h>
#include <Event.h>
#include <ObsSet.h>
#include <memory>
#include <algorithm>
using namespace mc;
typedef std::vector<double> VD;
typedef std::vector<std::string> VN;

static std::vector<VN> orders(const VN &n) {
  std::vector<VN> out;
  for (unsigned m = 1; m < (1u << n.size()); m++) { VN s; for (size_t i = 0; i < n.size(); i++) if (m >> i & 1) s.push_back(n[i]); std::sort(s.begin(), s.end()); do out.push_back(s); while (std::next_permutation(s.begin(), s.end())); }
  return out;
}
static void checkEvent(const Event &e, const VN &names, const VD &v, const std::string &who, bool deep) {
  MC_CHECK(e.GetNObservables() == v.size() && e.GetData() == v, "event: data", who << " holds " << vstr(e.GetData()) << " expected " << vstr(v));
  for (size_t i = 0; i < v.size(); i++) MC_CHECK(e.GetDatum(i) == v[i], "event: datum by index", who << " index " << i);
  if (names.size() == v.size()) {
    MC_CHECK(e.GetObservableNames() == names, "event: names", who << " has " << vstr(e.GetObservableNames()) << " expected " << vstr(names));
    for (size_t i = 0; i < v.size(); i++) MC_CHECK(e.GetDatum(names[i]) == v[i], "event: datum by name", who << " " << names[i] << " gives " << e.GetDatum(names[i]) << " expected " << v[i]);
    std::map<std::string, double> m; for (size_t i = 0; i < v.size(); i++) m[names[i]] = v[i];
    MC_CHECK(e.GetDataMap() == m, "event: data map", who);
    if (deep)
      for (auto &o : orders(names)) {
        VD got = e.ToObsSet(ObsSet(o)); VD want; for (auto &x : o) want.push_back(m[x]);
        MC_CHECK(got == want, "event: selection", who << " selecting " << vstr(o) << " gives " << vstr(got));
      }
  }
  if (deep) {
    MC_CHECK(throws([&] { e.GetDatum("missing"); }), "event: unknown observable answered", who);
    MC_CHECK(throws([&] { e.GetDatum(v.size()); }) && throws([&] { e.GetDatum((size_t)-1); }), "event: index out of range answered", who);
    VN s = names; s.push_back("missing");
    MC_CHECK(throws([&] { e.ToObsSet(ObsSet(s)); }), "event: selection with unknown observable answered", who);
  }
}

struct M { VN names; size_t nobs = 0; std::vector<VD> rows; };
static void checkSet(const OXSXDataSet &d, const M &m, const std::string &who, bool deep) {
  MC_CHECK(d.GetNEntries() == m.rows.size(), "data set: number of entries", who << " has " << d.GetNEntries() << " expected " << m.rows.size());
  MC_CHECK(d.GetObservableNames() == m.names, "data set: names", who << " has " << vstr(d.GetObservableNames()) << " expected " << vstr(m.names));
  if (m.rows.size()) MC_CHECK(d.GetNObservables() == m.nobs, "data set: number of observables", who);
  for (size_t i = 0; i < m.rows.size(); i++) checkEvent(d.GetEntry(i), m.names, m.rows[i], who + " entry " + std::to_string(i), deep && i == 0);
  if (deep) MC_CHECK(throws([&] { d.GetEntry(m.rows.size()); }) && throws([&] { d.GetEntry((size_t)-1); }), "data set: entry out of range answered", who);
}
static const VN XY = {"x", "y"}, YX = {"y", "x"}, XYZ = {"z", "x", "y"}, NONE;

MC_SCENARIO(data_sets) {
  std::vector<std::unique_ptr<OXSXDataSet>> d(3);
  std::vector<M> m(3);
  double next = 1;
  auto add = [&](int i, size_t n) {
    VD v; for (size_t k = 0; k < n; k++) { v.push_back(next); next += 1; }
    d[i]->AddEntry(Event(v)); m[i].rows.push_back(v); m[i].nobs = n;
  };
  // 0 and 1 exist with one and two events
  for (int i = 0; i < 2; i++) { d[i].reset(new OXSXDataSet()); d[i]->SetObservableNames(XY); m[i].names = XY; for (int k = 0; k <= i; k++) add(i, 2); }
  op("A: one event, B: two events of (x, y)");
  int depth = tier(5, 6);
  for (int s = 0; s < depth; s++) {
    int o = choose(16, "op");
    switch (o) {
      case 0: MC_OP("add event to A"); if (!d[0]) prune(); add(0, m[0].nobs ? m[0].nobs : 2); break;
      case 1: { MC_OP("add events of wrong or no size to B"); if (!d[1] || !m[1].rows.size()) prune();
        MC_CHECK(throws([&] { d[1]->AddEntry(Event(VD(m[1].nobs + 1, 5))); }) && throws([&] { d[1]->AddEntry(Event(VD())); }), "event of wrong dimension accepted", "");
        if (m[1].nobs > 1) MC_CHECK(throws([&] { d[1]->AddEntry(Event(VD(m[1].nobs - 1, 5))); }), "event of wrong dimension accepted", ""); break; }
      case 2: MC_OP("rename the observables of A"); if (!d[0] || m[0].nobs == 3) prune(); m[0].names = m[0].names == YX ? XY : YX; d[0]->SetObservableNames(m[0].names); break;
      case 3: MC_OP("copy A to C"); if (!d[0]) prune(); d[2].reset(new OXSXDataSet(*d[0])); m[2] = m[0]; break;
      case 4: MC_OP("copy B to A"); if (!d[1]) prune(); d[0].reset(new OXSXDataSet(*d[1])); m[0] = m[1]; break;
      case 5: MC_OP("assign A to B"); if (!d[0] || !d[1]) prune(); *d[1] = *d[0]; m[1] = m[0]; break;
      case 6: MC_OP("assign A to itself"); if (!d[0]) prune(); { OXSXDataSet &r = *d[0]; *d[0] = r; } break;
      case 7: case 8: case 9: { int i = o == 9 ? 1 : 0, j = o == 7 ? 1 : 0;
        MC_OP("C = " << "AB"[i] << " + " << "AB"[j]); if (!d[i] || !d[j]) prune();
        bool bad = (m[i].rows.size() && m[j].rows.size() && m[i].nobs != m[j].nobs) || (m[i].names.size() && m[j].names.size() && m[i].names != m[j].names);
        if (m[i].rows.size() + m[j].rows.size() > 12) prune();
        if (bad) { MC_CHECK(throws([&] { OXSXDataSet x = *d[i] + *d[j]; }), "concatenation of different observables accepted", vstr(m[i].names) << " + " << vstr(m[j].names)); break; }
        d[2].reset(new OXSXDataSet(*d[i] + *d[j]));
        M r = m[i]; if (r.names.empty()) r.names = m[j].names; if (!r.nobs) r.nobs = m[j].nobs;
        r.rows.insert(r.rows.end(), m[j].rows.begin(), m[j].rows.end());
        m[2] = r; break; }
      case 10: MC_OP("destroy A"); if (!d[0]) prune(); d[0].reset(); m[0] = M(); break;
      case 11: MC_OP("destroy B"); if (!d[1]) prune(); d[1].reset(); m[1] = M(); break;
      case 12: MC_OP("new A of (z, x, y) with an event"); d[0].reset(new OXSXDataSet()); m[0] = M(); d[0]->Reserve(4); add(0, 3); d[0]->SetObservableNames(XYZ); m[0].names = XYZ; break;
      case 13: MC_OP("new empty B without names"); d[1].reset(new OXSXDataSet()); m[1] = M(); break;
      case 14: { MC_OP("change a copy of an event of A"); if (!d[0] || !m[0].rows.size()) prune();
        Event e = d[0]->GetEntry(0); VD v = m[0].rows[0];
        v[0] = -1; v[v.size() - 1] = -2; e.SetDatum((size_t)0, -1);
        if (m[0].names.size()) e.SetDatum(m[0].names.back(), -2); else e.SetDatum(v.size() - 1, -2);
        checkEvent(e, m[0].names, v, "changed event", true);
        MC_CHECK(throws([&] { e.SetDatum(v.size(), 3); }) && throws([&] { e.SetDatum("missing", 3); }), "event: change of unknown observable accepted", "");
        checkEvent(e, m[0].names, v, "event after a refused change", true);
        break; }
      case 15: { MC_OP("add the last event of B to A"); if (!d[0] || !d[1] || !m[1].rows.size()) prune();
        Event e = d[1]->GetEntry(m[1].rows.size() - 1);
        if (m[0].rows.size() && m[0].nobs != m[1].nobs) { MC_CHECK(throws([&] { d[0]->AddEntry(e); }), "event of wrong dimension accepted", ""); break; }
        d[0]->AddEntry(e); m[0].rows.push_back(m[1].rows.back()); m[0].nobs = m[1].nobs; break; }
    }
    if (!fresh()) continue;
    Hash h;
    for (int i = 0; i < 3; i++) { h.b(d[i] ? 1 : 0).b(m[i].nobs).vs(m[i].names); for (auto &r : m[i].rows) h.vd(r); if (d[i]) checkSet(*d[i], m[i], std::string(1, "ABC"[i]), s == depth - 1); }
    state(h.h);
  }
}

MC_SCENARIO(events) {
  // names live on the heap, the event is used while they live
  std::unique_ptr<VN> n1(new VN(XYZ)), n2(new VN{"b", "a", "c"});
  VD v = {10, 20, 30};
  std::unique_ptr<Event> e(new Event(v)), f;
  VD fv; VN en, fn;
  int depth = tier(4, 6);
  for (int s = 0; s < depth; s++) {
    switch (choose(9, "op")) {
      case 0: op("name event (z,x,y)"); e->SetObservableNames(n1.get()); en = *n1; break;
      case 1: op("name event (b,a,c)"); e->SetObservableNames(n2.get()); en = *n2; break;
      case 2: op("set datum 1"); e->SetDatum((size_t)1, 21 + s); v[1] = 21 + s; break;
      case 3: { if (en.empty()) { op("set by name before names are set"); MC_CHECK(throws([&] { e->SetDatum("x", 3); }) && throws([&] { e->GetDatum("x"); }) && throws([&] { e->GetObservableNames(); }) && throws([&] { e->GetDataMap(); }) && throws([&] { e->ToObsSet(ObsSet("x")); }), "event: access by name without names", ""); }
        else { MC_OP("set " << en[2]); e->SetDatum(en[2], 31 + s); v[2] = 31 + s; } break; }
      case 4: op("copy event"); f.reset(new Event(*e)); fv = v; fn = en; break;
      case 5: op("assign event back"); if (!f) prune(); *e = *f; v = fv; en = fn; break;
      case 6: op("destroy copy"); if (!f) prune(); f.reset(); break;
      case 7: op("refused change"); MC_CHECK(throws([&] { e->SetDatum((size_t)3, 1); }) && throws([&] { e->SetDatum((size_t)1000, 1); }), "event: change of index out of range accepted", ""); break;
      case 8: op("change copy"); if (!f) prune(); f->SetDatum((size_t)0, -5); fv[0] = -5; break;
    }
    if (!fresh()) continue;
    checkEvent(*e, en, v, "event", en.size() && s == depth - 1);
    if (f) checkEvent(*f, fn, fv, "copied event", fn.size() && s == depth - 1);
    state(Hash().vd(v).vs(en).vd(fv).vs(fn).h);
  }
}

// the same selection from events of differently ordered sources, in turn
MC_SCENARIO(sources_in_turn) {
  auto os = orders(VN{"x", "y", "z"});
  const VN n1 = pick(os, "names of the first"), n2 = pick(os, "names of the second"), sel = pick(os, "selection"); bool sets = flip("from data sets");
  MC_OP("select " << vstr(sel) << " from events of " << vstr(n1) << " and " << vstr(n2));
  std::map<std::string, double> val[2]; VD v[2]; double next = 1; const VN *n[2] = {&n1, &n2}; OXSXDataSet d[2]; Event e[2] = {Event(VD()), Event(VD())};
  for (int i = 0; i < 2; i++) { for (auto &x : *n[i]) { v[i].push_back(next); val[i][x] = next++; } d[i].SetObservableNames(*n[i]); d[i].AddEntry(Event(v[i])); e[i] = Event(v[i]); e[i].SetObservableNames(n[i]); }
  ObsSet o(sel);
  for (int k = 0; k < 4; k++) {
    int i = k == 1 || k == 2; Event x = sets ? d[i].GetEntry(0) : e[i]; bool has = true; for (auto &y : sel) has = has && val[i].count(y);
    if (!has) { MC_CHECK(throws([&] { x.ToObsSet(o); }), "event: selection with unknown observable answered", "source " << i); continue; }
    VD want, got = x.ToObsSet(o); for (auto &y : sel) want.push_back(val[i][y]);
    MC_CHECK(got == want, "event: selection", "source " << i << " gives " << vstr(got) << " expected " << vstr(want));
    for (auto &y : sel) { double old = x.GetDatum(y); MC_CHECK(old == val[i][y], "event: datum by name", y); x.SetDatum(y, -7); VD w = v[i]; for (size_t j = 0; j < w.size(); j++) if ((*n[i])[j] == y) w[j] = -7; MC_CHECK(x.GetData() == w, "event: datum set by name", y); x.SetDatum(y, old); }
    MC_CHECK(x.GetDataMap() == val[i], "event: data map", "source " << i);
  }
  state(Hash().vs(n1).vs(n2).vs(sel).b(sets).h);
}

MC_SCENARIO(observable_sets) {
  VN all = {"c", "a", "d", "b"};
  auto os = orders(all);
  const VN &big = pick(os, "set");
  MC_OP("observable set " << vstr(big));
  ObsSet b(big);
  MC_CHECK(b.GetNames() == big && b.GetNObservables() == big.size(), "set: names", "");
  for (size_t i = 0; i < big.size(); i++) MC_CHECK(b.GetIndex(big[i]) == i, "set: index", big[i]);
  for (auto &x : all) if (std::find(big.begin(), big.end(), x) == big.end()) MC_CHECK(throws([&] { b.GetIndex(x); }), "set: unknown observable answered", x);
  for (auto &small : os) {
    ObsSet s(small);
    bool sub = true; for (auto &x : small) sub = sub && std::find(big.begin(), big.end(), x) != big.end();
    if (sub) {
      auto r = s.GetRelativeIndices(b);
      MC_CHECK(r.size() == small.size(), "set: relative indices length", "");
      for (size_t i = 0; i < r.size(); i++) MC_CHECK(r[i] < big.size() && big[r[i]] == small[i], "set: relative index", vstr(small) << " in " << vstr(big));
    } else MC_CHECK(throws([&] { s.GetRelativeIndices(b); }), "set: relative indices of foreign observables answered", vstr(small) << " in " << vstr(big));
    MC_CHECK((s == b) == (small == big) && (s != b) == (small != big), "set: comparison", "");
  }
  // renaming forgets the old names
  const VN &other = pick(os, "rename");
  if (other.size() > 2) return;
  ObsSet c(b);
  c.SetNames(other);
  MC_CHECK(c.GetNames() == other, "set: names after renaming", "");
  for (auto &x : all) {
    auto it = std::find(other.begin(), other.end(), x);
    if (it == other.end()) MC_CHECK(throws([&] { c.GetIndex(x); }), "set: forgotten observable answered", x << " after renaming to " << vstr(other));
    else MC_CHECK(c.GetIndex(x) == (size_t)(it - other.begin()), "set: index after renaming", x);
  }
  MC_CHECK(b.GetNames() == big, "set: changed by changing a copy", "");
  if (other.size() == 1) { ObsSet one(other[0]); MC_CHECK(one.GetNames() == other && one == c, "set: single name", ""); }
  state(Hash().vs(big).vs(other).h);
}

// many observables and many entries: names whose alphabetical order is not their order, tables grown past every power of two up to the bound
MC_SCENARIO(many) {
  static const std::vector<size_t> obsN = {1, 2, 9, 10, 12, 33, 65}, evN = {1, 3, 16, 17, 100, 257, 1025, 5000};
  size_t P = pick(obsN, "observables"), N = evN[choose(tier(7, 8), "entries")]; int how = choose(5, "how");
  VN names; for (size_t i = 0; i < P; i++) names.push_back("o" + std::to_string(i));
  if (how & 1) std::reverse(names.begin(), names.end());
  auto val = [&](size_t r, size_t c) { return r * 1000. + c + 0.25; };
  auto row = [&](size_t r) { VD v; for (size_t c = 0; c < P; c++) v.push_back(val(r, c)); return v; };
  OXSXDataSet a; if (how < 3) a.SetObservableNames(names);
  for (size_t r = 0; r < N; r++) { a.AddEntry(Event(row(r))); if (r == N / 2 && how >= 3) a.SetObservableNames(names); }
  MC_OP(N << " events of " << P << " observables, way " << how);
  auto look = [&](const OXSXDataSet &d, size_t n, const char *w) {
    MC_CHECK(d.GetNEntries() == n && d.GetNObservables() == P && d.GetObservableNames() == names, "many: size", w << " " << d.GetNEntries() << " entries, expected " << n);
    for (size_t r = 0; r < n; r++) { Event e = d.GetEntry(r); MC_CHECK(e.GetData() == row(r % N), "many: entry", w << " entry " << r); size_t c = r * 7 % P; MC_CHECK(e.GetDatum(names[c]) == val(r % N, c) && e.GetDatum(c) == val(r % N, c), "many: value by name", w << " entry " << r << " " << names[c] << " gives " << e.GetDatum(names[c])); }
    MC_CHECK(throws([&] { d.GetEntry(n); }), "many: entry out of range answered", w);
  };
  look(a, N, "filled"); { OXSXDataSet b(a); look(b, N, "copy"); } look(a, N, "after the copy died");
  OXSXDataSet s = a + a; look(s, 2 * N, "sum"); look(a, N, "after the sum");
  OXSXDataSet acc = a; for (int i = 0; i < (N < 100 ? 6 : 2); i++) acc = acc + a; look(acc, N * (N < 100 ? 7 : 3), "accumulated");
  Event e = a.GetEntry(N - 1);
  for (size_t i = 0; i < P; i++) MC_CHECK(e.GetDatum(names[i]) == val(N - 1, i), "many: value by name", names[i]);
  auto mp = e.GetDataMap(); MC_CHECK(mp.size() == P, "many: data map", mp.size()); for (size_t i = 0; i < P; i++) MC_CHECK(mp[names[i]] == val(N - 1, i), "many: data map", names[i]);
  // selections: every stride and rotation
  for (size_t st = 1; st <= P; st += 1 + P / 8) for (size_t ro = 0; ro < P; ro += 1 + P / 5) { VN sel; VD want; for (size_t k = 0, i = ro; k < P; k++, i = (i + st) % P) { if (std::find(sel.begin(), sel.end(), names[i]) != sel.end()) break; sel.push_back(names[i]); want.push_back(val(N - 1, i)); }
    VD got = e.ToObsSet(ObsSet(sel)); MC_CHECK(got == want, "many: selection", vstr(sel) << " gives " << vstr(got)); }
  MC_CHECK(throws([&] { e.GetDatum("o" + std::to_string(P)); }) && throws([&] { e.GetDatum(P); }), "many: unknown observable answered", P);
  state(Hash().b(P).b(N).b(how).h);
}
