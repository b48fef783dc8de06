// C15 combined test statistics and managers fan parameters out to every owner
#include "mc.h"
#include <StatisticSum.h>
#include <BinnedNLLH.h>
#include <ComponentManager.h>
#include <ParameterManager.h>
#include <DoubleParameter.h>
#include <ContainerParameter.h>
#include <Scale.h>
#include <list>
#include <memory>
#include <algorithm>
using namespace mc;
typedef std::vector<double> VD;
typedef std::vector<std::string> VN;

// a component with its own parameters
struct Comp : FitComponent {
  std::map<std::string, double> v; std::string n;
  Comp(const VN &names, const std::string &nm, double start) : n(nm) { for (auto &x : names) v[x] = start++; }
  void SetParameter(const std::string &p, double x) { if (!v.count(p)) throw ParameterError("no " + p); v[p] = x; }
  double GetParameter(const std::string &p) const { if (!v.count(p)) throw ParameterError("no " + p); return v.at(p); }
  void SetParameters(const ParameterDict &d) { for (auto &x : v) if (!d.count(x.first)) throw ParameterError("no " + x.first); for (auto &x : v) x.second = d.at(x.first); }
  ParameterDict GetParameters() const { return v; }
  size_t GetParameterCount() const { return v.size(); }
  std::set<std::string> GetParameterNames() const { std::set<std::string> s; for (auto &x : v) s.insert(x.first); return s; }
  void RenameParameter(const std::string &, const std::string &) {}
  std::string GetName() const { return n; }
  void SetName(const std::string &x) { n = x; }
  double value() const { double s = 0, w = 1; for (auto &x : v) s += (w += 1) * x.second * x.second; return s; }
};
struct Toy : TestStatistic {
  std::vector<std::unique_ptr<Comp>> comps;
  Toy(const std::vector<VN> &sets, double start) { for (auto &s : sets) comps.emplace_back(new Comp(s, "c", start)); }
  double own() const { double s = 0; for (auto &c : comps) s += c->value(); return s; }
  double Evaluate() { return own() + GetConstraintManager().Evaluate(GetParameters()); }
  void RegisterFitComponents() { GetComponentManager().Clear(); for (auto &c : comps) GetComponentManager().AddComponent(c.get()); }
};
static const std::vector<std::vector<VN>> &shapes() { static const std::vector<std::vector<VN>> s = {{{"a", "b"}}, {{"b"}, {"b", "c"}}, {{"c", "a"}}, {{"d"}}}; return s; }
static double sq(double z) { return z * z / 2; }

// ---- sums of statistics
struct Node { int toy = -1; std::vector<int> kids; std::map<std::string, double> con; };   // reference: structure only
struct Sums {
  std::vector<std::unique_ptr<Toy>> toys; std::vector<std::unique_ptr<StatisticSum>> sums; std::vector<Node> nodes; std::vector<TestStatistic *> stat;
  void leaf(int t) { toys.emplace_back(new Toy(shapes()[t], 0.5 + t)); toys.back()->RegisterFitComponents(); Node n; n.toy = toys.size() - 1; nodes.push_back(n); stat.push_back(toys.back().get()); }
  void addSum(StatisticSum *s, const Node &n) { sums.emplace_back(s); nodes.push_back(n); stat.push_back(s); }
  double value(int i) const { const Node &n = nodes[i]; double v = 0; if (n.toy >= 0) v = toys[n.toy]->own(); for (int k : n.kids) v += value(k); for (auto &c : n.con) v += sq(params(i).at(c.first) - c.second); return v; }
  ParameterDict params(int i) const { ParameterDict d; const Node &n = nodes[i]; if (n.toy >= 0) for (auto &c : toys[n.toy]->comps) for (auto &x : c->v) d.insert(x); for (int k : n.kids) { auto q = params(k); d.insert(q.begin(), q.end()); } return d; }
  // values an owner has; owners may disagree until a common set
  std::map<std::string, std::set<double>> owned(int i) const { std::map<std::string, std::set<double>> o; for (int t : leaves(i)) for (auto &c : toys[t]->comps) for (auto &x : c->v) o[x.first].insert(x.second); return o; }
  bool ambiguous(int i) const { auto o = owned(i); for (auto &c : nodes[i].con) if (o[c.first].size() > 1) return true; for (int k : nodes[i].kids) if (ambiguous(k)) return true; return false; }
  void expect(int i, const ParameterDict &d) { for (auto &c : leaves(i)) for (auto &x : toys[c]->comps) for (auto &y : x->v) MC_CHECK(y.second == d.at(y.first), "set: an owner did not get the value", "parameter " << y.first); }
  std::set<int> leaves(int i) const { std::set<int> s; if (nodes[i].toy >= 0) s.insert(nodes[i].toy); for (int k : nodes[i].kids) { auto q = leaves(k); s.insert(q.begin(), q.end()); } return s; }
  void check(int i) {
    if (!fresh()) return;
    ParameterDict d = params(i); std::set<std::string> n; for (auto &x : d) n.insert(x.first);
    ParameterDict have = stat[i]->GetParameters(); auto o = owned(i); bool good = have.size() == n.size(); for (auto &x : have) good = good && o.count(x.first) && o[x.first].count(x.second);
    MC_CHECK(stat[i]->GetParameterNames() == n && stat[i]->GetParameterCount() == n.size() && good, "sum: parameters", "got " << mstr(have) << " expected " << mstr(d));
    if (ambiguous(i)) { stat[i]->Evaluate(); return; }
    double w = value(i), g = stat[i]->Evaluate(); MC_CHECK(close(g, w, 1e-12, 1e-12), "sum: value", "node " << i << " got " << g << " expected " << w); state(Hash().d(w).md(d).h);
  }
};
MC_SCENARIO_SPLIT(sums, 4) {
  Sums s; for (int t = 0; t < 3; t++) s.leaf(t); int n = tier(3, 4);
  for (int k = 0; k < n; k++) {
    int N = s.stat.size(), what = choose(7, "op");
    if (what == 0) { int i = choose(N, "left"), j = choose(N, "right"); MC_OP(i << " + " << j); Node q;
      StatisticSum *si = dynamic_cast<StatisticSum *>(s.stat[i]), *sj = dynamic_cast<StatisticSum *>(s.stat[j]);
      if (si && !sj) { q = s.nodes[i]; q.kids.push_back(j); s.addSum(new StatisticSum(*si + *s.stat[j]), q); }
      else if (sj && !si) { q.kids = {i, j}; s.addSum(new StatisticSum(*s.stat[i] + *sj), q); }   // holds the sum itself as a part
      else { q.kids = {i, j}; s.addSum(new StatisticSum(*s.stat[i] + *s.stat[j]), q); } }
    else if (what == 1) { int m = 1 << std::min(N, 3); int b = choose(m, "subset"); std::vector<TestStatistic *> v; Node q; for (int i = 0; i < N && i < 3; i++) if (b >> i & 1) { v.push_back(s.stat[i]); q.kids.push_back(i); } MC_OP("Sum of subset " << b); s.addSum(new StatisticSum(Sum(v)), q); }
    else if (what == 2) { if (N == 3) prune(); int j = choose(N - 1, "part"); MC_OP("add " << j << " to " << N - 1); s.sums.back()->AddStat(*s.stat[j]); s.nodes[N - 1].kids.push_back(j); }
    else if (what == 3) { int i = N - 1 - choose(std::min(N, 2), "node"); ParameterDict d = s.params(i); int x = k; for (auto &y : d) y.second = 10 + x++; if (d.empty()) prune(); int how = choose(3, "more than needed, or what is reported"); if (how == 2) d = s.stat[i]->GetParameters(); ParameterDict e = d; if (how == 1) { e["zz"] = 1; e["0"] = 2; } MC_OP("set parameters of " << i); s.stat[i]->SetParameters(e); s.expect(i, d); }
    else if (what == 4) { int i = N - 1; ParameterDict d = s.params(i); if (d.empty()) prune(); int miss = choose((int)std::min<size_t>(d.size(), 3), "missing"); auto it = d.begin(); std::advance(it, miss); d.erase(it); d["zz"] = 3; MC_OP("set parameters of " << i << " without one"); MC_CHECK(throws([&] { s.stat[i]->SetParameters(d); }), "set: incomplete set accepted", ""); }
    else if (what == 5) { int i = choose(N, "node"); ParameterDict d = s.params(i); if (d.empty()) prune(); auto it = d.begin(); if (flip("last")) it = --d.end(); MC_OP("constrain " << it->first << " on " << i); s.stat[i]->SetConstraint(it->first, 1 + k, 1); s.nodes[i].con[it->first] = 1 + k; }
    else { if (N == 3) prune(); MC_OP("copy " << N - 1); s.addSum(new StatisticSum(*s.sums.back()), s.nodes[N - 1]); }
    for (size_t i = 0; i < s.stat.size(); i++) s.check(i);
  }
}

// ---- component manager
MC_SCENARIO_SPLIT(components, 3) {
  ComponentManager m; std::vector<std::unique_ptr<Comp>> c; static const std::vector<VN> sets = {{"a", "b"}, {"b", "c"}, {"c"}, {}, {"a", "b", "c"}}; std::vector<Comp *> in; int n = tier(5, 6);
  for (int k = 0; k < n; k++) {
    switch (choose(5, "op")) {
      case 0: { int s = choose((int)sets.size(), "component"); MC_OP("add " << vstr(sets[s])); c.emplace_back(new Comp(sets[s], "n", k)); m.AddComponent(c.back().get()); in.push_back(c.back().get()); break; }
      case 1: MC_OP("clear"); m.Clear(); in.clear(); break;
      case 2: { ParameterDict d; d["a"] = 10 + k; d["b"] = 20 + k; d["c"] = 30 + k; d["x"] = 0; if (flip("what is reported")) d = m.GetParameters(); MC_OP("set all " << mstr(d)); m.SetParameters(d); for (auto *q : in) for (auto &x : q->v) MC_CHECK(x.second == d[x.first], "components: value not set", x.first); break; }
      case 3: { const char *gone[] = {"a", "b", "c"}; std::string g = gone[choose(3, "missing")]; ParameterDict d; for (auto *x : gone) if (x != g) d[x] = 5 + k; bool need = false; for (auto *q : in) need = need || q->v.count(g); MC_OP("set without " << g); MC_CHECK(throws([&] { m.SetParameters(d); }) == need, need ? "components: incomplete set accepted" : "components: set refused", ""); break; }
      case 4: { MC_OP("set nothing"); std::vector<ParameterDict> b; for (auto *q : in) b.push_back(q->v); m.SetParameters(ParameterDict()); for (size_t i = 0; i < in.size(); i++) MC_CHECK(in[i]->v == b[i], "components: empty set changed values", ""); break; }
    }
    if (!fresh()) continue;
    std::set<std::string> n2; ParameterDict d; for (auto *q : in) for (auto &x : q->v) { n2.insert(x.first); d.insert(x); }
    MC_CHECK(m.GetComponentCount() == in.size() && m.GetParameterNames() == n2 && m.GetTotalParameterCount() == (int)n2.size() && mclose(m.GetParameters(), d), "components: parameters", "");
    for (auto &x : d) MC_CHECK(m.GetParameter(x.first) == x.second, "components: value", "");
    MC_CHECK(throws([&] { m.GetParameter("nope"); }), "components: unknown parameter answered", ""); state(Hash().md(d).b(in.size()).h);
  }
}

// ---- parameter manager: names to storage
MC_SCENARIO_SPLIT(parameters, 4) {
  double d[3] = {1, 2, 3}; VD v = {10, 20}; std::list<double> l = {30, 40}; std::unique_ptr<ParameterManager> m(new ParameterManager); std::map<std::string, double *> in; int n = tier(4, 5);
  auto lst = [&](int i) { auto it = l.begin(); std::advance(it, i); return &*it; };
  static const VN names = {"p", "q", "v_0", "x"};
  for (int k = 0; k < n; k++) {
    switch (choose(9, "op")) {
      case 0: { int i = choose(2, "which"); std::string nm = names[choose(3, "name")]; MC_OP("add double " << i << " as " << nm); bool t = throws([&] { m->AddDouble(d[i], nm); }); MC_CHECK(t == (in.count(nm) > 0), "manager: name taken", nm); if (!t) in[nm] = &d[i]; break; }
      case 1: { MC_OP("add vector"); bool bad = in.count("v_0"), bad1 = in.count("v_1"); bool t = throws([&] { m->AddContainer(v, "v"); }); MC_CHECK(t == (bad || bad1), "manager: container names taken", ""); if (t) { if (!bad) in["v_0"] = &v[0]; } else { in["v_0"] = &v[0]; in["v_1"] = &v[1]; } break; }
      case 2: { MC_OP("add list under names"); VN nm = {"q", "r"}; bool bad = in.count("q"), bad1 = in.count("r"); bool t = throws([&] { m->AddContainer(l, nm); }); MC_CHECK(t == (bad || bad1), "manager: container names taken", ""); if (!bad) in["q"] = lst(0); if (!t) in["r"] = lst(1);
        MC_CHECK(throws([&] { m->AddContainer(l, VN{"z"}); }) && throws([&] { m->AddContainer(l, VN{"z", "y", "w"}); }), "manager: number of names", ""); break; }
      case 3: { std::string nm = names[choose(4, "name")]; MC_OP("set " << nm); bool t = throws([&] { m->SetParameter(nm, 100 + k); }); MC_CHECK(t == !in.count(nm), "manager: set", nm); if (!t) *in[nm] = 100 + k; break; }
      case 4: { MC_OP("set all"); ParameterDict p; p["zz"] = 1; int x = 0; for (auto &q : in) p[q.first] = 200 + k + x++; std::set<double *> st; bool alias = false; for (auto &q : in) alias = !st.insert(q.second).second || alias; m->SetParameters(p); for (auto &q : in) { *q.second = p[q.first]; } (void)alias; break; }
      case 5: { if (in.empty()) prune(); MC_OP("set without one"); ParameterDict p; for (auto &q : in) p[q.first] = *q.second; p.erase(flip("last") ? --p.end() : p.begin()); MC_CHECK(throws([&] { m->SetParameters(p); }), "manager: incomplete set accepted", ""); break; }
      case 6: { std::string o = names[choose(3, "old")], w = names[choose(4, "new")]; MC_OP("rename " << o << " " << w); bool ok = in.count(o) && !in.count(w); MC_CHECK(throws([&] { m->RenameParameter(o, w); }) == !ok, "manager: rename", ""); if (ok) { in[w] = in[o]; in.erase(o); } break; }
      case 7: MC_OP("clear"); m->Clear(); in.clear(); break;
      case 8: { MC_OP("copy"); ParameterManager c(*m); MC_CHECK(c.GetParameterCount() == 0, "manager: a copy has the parameters of the original", ""); c.AddDouble(d[2], "p"); ParameterManager e; e.AddDouble(d[2], "own"); e = *m; MC_CHECK(e.GetParameterCount() == 1 && e.GetParameter("own") == d[2], "manager: assignment", ""); break; }
    }
    if (!fresh()) continue;
    ParameterDict p; std::set<std::string> s; for (auto &q : in) { p[q.first] = *q.second; s.insert(q.first); }
    MC_CHECK(m->GetParameterCount() == in.size() && m->GetParameterNames() == s && m->GetParameters() == p, "manager: parameters", "got " << mstr(m->GetParameters()) << " expected " << mstr(p));
    for (auto &x : names) { if (in.count(x)) MC_CHECK(m->GetParameter(x) == *in[x], "manager: value", ""); else MC_CHECK(throws([&] { m->GetParameter(x); }), "manager: unknown parameter answered", ""); }
    state(Hash().md(p).h);
  }
}

// ---- likelihoods sharing pdfs' names and a systematic
MC_SCENARIO_SPLIT(likelihoods, 3) {
  AxisCollection ax; ax.AddAxis(BinAxis("x", 0, 3, 3)); Scale sc("scale"); sc.SetAxes(ax); sc.SetDistributionObs(VN{"x"}); sc.SetTransformationObs(VN{"x"}); sc.SetParameter("scaleFactor", 1);
  auto pdf = [&](const std::string &n, int j) { BinnedED d(n, ax); d.SetObservables(VN{"x"}); for (int i = 0; i < 3; i++) d.SetBinContent(i, 1 + (i * j) % 3); d.Normalise(); return d; };
  auto data = [&](int j) { BinnedED d("data", ax); d.SetObservables(VN{"x"}); for (int i = 0; i < 3; i++) d.SetBinContent(i, 1 + i * j); return d; };
  BinnedNLLH a, b, c; BinnedNLLH *p[3] = {&a, &b, &c}; static const std::vector<VN> names = {{"s", "t"}, {"t", "u"}, {"s", "u"}}; int shared = choose(4, "who has the systematic");
  for (int i = 0; i < 3; i++) { if (shared & 1 << (i > 1 ? 1 : i)) p[i]->AddSystematic(&sc); for (auto &n : names[i]) p[i]->AddPdf(pdf(n, 1 + i + (n == "t"))); p[i]->SetDataDist(data(i)); if (i) p[i]->SetConstraint(names[i][0], 2, 1 + i); }
  StatisticSum sum; int how = choose(4, "how"); StatisticSum inner;
  if (how == 0) { sum = a + b; sum = sum + static_cast<TestStatistic &>(c); } else if (how == 1) { std::vector<TestStatistic *> v = {&a, &b, &c}; sum = Sum(v); } else if (how == 2) { inner.AddStat(b); inner.AddStat(c); sum.AddStat(a); sum.AddStat(inner); } else { sum.AddStat(c); sum.AddStat(b); sum.AddStat(a); }
  sum.RegisterFitComponents(); bool con = flip("constraint on the sum"); if (con) sum.SetConstraint("t", 1, 0.5); int n = tier(3, 4);
  std::set<std::string> want = {"s", "t", "u"}; if (shared) want.insert("scaleFactor"); MC_CHECK(sum.GetParameterNames() == want && sum.GetParameterCount() == want.size(), "likelihoods: names", "");
  for (int k = 0; k < n; k++) {
    int w = choose(3, "point"); ParameterDict d; d["s"] = 1 + w; d["t"] = 3 - w; d["u"] = 0.5 + w; if (shared) d["scaleFactor"] = w == 1 ? 0.8 : 1; MC_OP("set " << mstr(d)); sum.SetParameters(d);
    MC_CHECK(mclose(sum.GetParameters(), d), "likelihoods: parameters", "");
    double got = sum.Evaluate(), each = con ? sq((d["t"] - 1) / 0.5) : 0; for (auto *q : p) each += q->Evaluate();
    MC_CHECK(close(got, each, 1e-12, 1e-12), "likelihoods: sum", "got " << got << " expected " << each);
    // each part as if it were on its own
    for (int i = 0; i < 3; i++) for (auto &x : p[i]->GetParameters()) MC_CHECK(x.second == d[x.first], "likelihoods: parameter of a part", x.first);
    state(Hash().d(got).h);
  }
}
// ---- containers of more elements than one digit can number
MC_SCENARIO(containers) {
  static const std::vector<int> nums = {1, 2, 10, 11, 12, 103}; int N = nums[choose(6, "elements")], how = choose(4, "container and names"), second = choose(2, "a second container"); ParameterManager m; VD v(N), w(N); std::list<double> l(N, 0.); std::map<std::string, double *> in;
  auto num = [](const std::string &s, int i) { std::ostringstream o; o << s << i; return o.str(); }; VN names; for (int i = 0; i < N; i++) names.push_back(num(how == 1 ? "a" : "v_", how == 1 ? N - i : i)); auto it = l.begin(); for (int i = 0; i < N; i++) { v[i] = 1 + i; *it++ = 1 + i; w[i] = -i; }
  if (how == 0) m.AddContainer(v, "v"); if (how == 1) m.AddContainer(v, names); if (how == 2) m.AddContainer(l, "v"); if (how == 3) m.AddContainer(l, names); it = l.begin(); for (int i = 0; i < N; i++, ++it) in[names[i]] = how < 2 ? &v[i] : &*it;
  if (second) { m.AddContainer(w, "w"); for (int i = 0; i < N; i++) in[num("w_", i)] = &w[i]; }
  auto agree = [&](const char *when) { ParameterDict p; for (auto &q : in) p[q.first] = *q.second; MC_CHECK(m.GetParameters() == p && m.GetParameterCount() == in.size(), "containers: values", when << " got " << mstr(m.GetParameters()) << " expected " << mstr(p)); for (auto &q : in) MC_CHECK(m.GetParameter(q.first) == *q.second, "containers: value", when << " " << q.first); };
  agree("at first"); int i = choose(std::min(N, tier(13, 103)), "which"); MC_OP("set element " << i << " of " << N); m.SetParameter(names[i], 500); MC_CHECK(*in[names[i]] == 500, "containers: set another element", names[i]); agree("after one");
  ParameterDict p; int x = 0; for (auto &q : in) p[q.first] = 1000 + x++; m.SetParameters(p); for (auto &q : in) MC_CHECK(*q.second == p[q.first], "containers: bulk set another element", q.first); agree("after all");
  m.RenameParameter(names[i], "new"); in["new"] = in[names[i]]; in.erase(names[i]); m.SetParameter("new", 7); MC_CHECK(*in["new"] == 7, "containers: renamed", ""); agree("after renaming");
  for (double &e : v) e += 0.5; for (double &e : l) e += 0.5; agree("after a direct change"); state(Hash().b(N).b(how).b(i).h);
}
