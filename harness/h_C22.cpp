// C22 probabilities are evaluated on the right observables and stay normalised
#include "mc.h"
#include <BinnedED.h>
#include <AnalyticED.h>
#include <CompositeED.h>
#include <SpectralFitDist.h>
#include <EDManager.h>
#include <Gaussian.h>
#include <JumpPDF.h>
#include <ConditionalPDF.h>
#include <Event.h>
#include <Exceptions.h>
#include <cmath>
#include <memory>
#include <algorithm>
#include <iostream>
using namespace mc;
typedef std::vector<double> VD;
typedef std::vector<std::string> VN;
static struct Quiet { Quiet() { std::cout.setstate(std::ios::failbit); } } quiet;

// the reference for a distribution: a function of the named values, and the integral it reports
struct Model;
typedef std::shared_ptr<Model> PM;
struct Model {
  enum Kind { BINNED, GAUSS, COMPOSITE } kind; std::string name; VN obs;
  std::vector<VD> edges; VD w;                // binned: edges per axis, contents with the last axis fastest or not: see index()
  VD mean, sd; std::vector<PM> parts;
  size_t bins() const { size_t n = 1; for (auto &e : edges) n *= e.size() - 1; return n; }
  std::vector<size_t> unpack(size_t i) const { std::vector<size_t> u(edges.size()); for (size_t k = edges.size(); k--;) { u[k] = i % (edges[k].size() - 1); i /= edges[k].size() - 1; } return u; }
  size_t flat(const std::vector<size_t> &u) const { size_t i = 0; for (size_t k = 0; k < edges.size(); k++) i = i * (edges[k].size() - 1) + u[k]; return i; }
  double integral() const { if (kind == GAUSS) return 1; double s = kind == COMPOSITE; for (double x : w) s += x; for (auto &p : parts) s *= p->integral(); return s; }
  void normalise() { if (kind == BINNED) { double s = integral(); for (double &x : w) x /= s; } for (auto &p : parts) p->normalise(); }
  void needs(std::set<std::string> &s) const { s.insert(obs.begin(), obs.end()); for (auto &p : parts) p->needs(s); }
  unsigned dims() const { unsigned n = kind == BINNED ? edges.size() : kind == GAUSS ? mean.size() : 0; for (auto &p : parts) n += p->dims(); return n; }
  size_t bin(const VD &v) const { std::vector<size_t> u; for (size_t k = 0; k < v.size(); k++) { size_t b = 0; while (b + 2 < edges[k].size() && v[k] >= edges[k][b + 1]) b++; u.push_back(b); } return flat(u); }
  double prob(const VD &v) const {
    if (kind == BINNED) return w[bin(v)] / integral();
    double p = 1; for (size_t k = 0; k < v.size(); k++) { double d = (v[k] - mean[k]) / sd[k]; p *= std::exp(-0.5 * d * d) / (std::sqrt(2 * M_PI) * sd[k]); } return p; }
  double prob(const std::map<std::string, double> &e) const { if (kind == COMPOSITE) { double p = 1; for (auto &q : parts) p *= q->prob(e); return p; } VD v; for (auto &n : obs) v.push_back(e.at(n)); return prob(v); }
  PM copy() const { PM m(new Model(*this)); for (auto &p : m->parts) p = p->copy(); return m; }
};
typedef std::shared_ptr<EventDistribution> PE;
struct Pair { PE e; PM m; };
static double weight(size_t salt, size_t i) { static const double w[] = {1, 3, 0.5, 0, 7, 2.25, 11, 0.125, 5}; return w[(i * 2 + salt) % 9] + (i == 0); }
// axes are called a0, a1, ... : not what the observables are called
static Pair binned(const std::string &name, const VN &obs, int salt) {
  Pair p; p.m.reset(new Model()); p.m->kind = Model::BINNED; p.m->name = name; p.m->obs = obs; AxisCollection a;
  for (size_t i = 0; i < obs.size(); i++) { size_t nb = 2 + (i + salt) % 2; VD e(1, -1); for (size_t b = 0; b < nb; b++) e.push_back(e.back() + 0.5 + ((salt + b + i) % 2)); p.m->edges.push_back(e); a.AddAxis(BinAxis(MC_STR("a" << i), VD(e.begin(), e.end() - 1), VD(e.begin() + 1, e.end()))); }
  auto *d = new BinnedED(name, a); p.e.reset(d); d->SetObservables(obs); p.m->w.assign(p.m->bins(), 0);
  for (size_t i = 0; i < p.m->bins(); i++) { auto u = p.m->unpack(i); p.m->w[i] = weight(salt, i); d->SetBinContent(d->FlattenIndices(u), p.m->w[i]); }
  return p; }
static Pair gauss(const std::string &name, const VN &obs, int salt) {
  Pair p; p.m.reset(new Model()); p.m->kind = Model::GAUSS; p.m->name = name; p.m->obs = obs; for (size_t i = 0; i < obs.size(); i++) { p.m->mean.push_back(0.25 * (i + salt)); p.m->sd.push_back(0.5 + i + 0.75 * salt); }
  Gaussian g(p.m->mean, p.m->sd, "g"); auto *d = new AnalyticED(name, &g); d->SetObservables(ObsSet(obs)); p.e.reset(d); return p; }
static Pair composite(const std::vector<Pair> &parts, bool times) {
  Pair p; p.m.reset(new Model()); p.m->kind = Model::COMPOSITE; std::vector<EventDistribution *> v; for (size_t i = 0; i < parts.size(); i++) { p.m->parts.push_back(parts[i].m->copy()); v.push_back(parts[i].e.get()); p.m->name += (i ? "*" : "") + parts[i].m->name; }
  if (times && v.size() == 2) p.e.reset(new CompositeED(*v[0] * *v[1])); else p.e.reset(new CompositeED(v)); return p; }
static const VN &pool() { static const VN p = {"x", "y", "z"}; return p; }
static const double *probes() { static const double p[] = {-1.5, -1, -0.25, 0.4, 0.5, 1.1, 2.75, 9}; return p; }
// every probe point of an event with the observables listed
static void events(const VN &list, std::function<void(const Event &, const std::map<std::string, double> &)> f, int step = 1) {
  std::vector<int> i(list.size(), 0);
  while (true) {
    VD v; std::map<std::string, double> m; for (size_t k = 0; k < list.size(); k++) { v.push_back(probes()[i[k]]); if (!m.count(list[k])) m[list[k]] = v[k]; } Event e(v); e.SetObservableNames(&list); f(e, m);
    size_t k = 0; while (k < list.size() && (i[k] += step) >= 8) i[k++] = 0; if (k == list.size()) return; } }
static void check(const EventDistribution &d, const Model &m, const VN &list, const std::string &what, int step = 1) {
  std::set<std::string> need; m.needs(need); bool all = true; for (auto &n : need) all &= std::count(list.begin(), list.end(), n) > 0; size_t skipped = 0;
  events(list, [&](const Event &e, const std::map<std::string, double> &v) {
    if (!all) { if (!skipped++) MC_CHECK(throws([&] { d.Probability(e); }), what + ": event without the observable accepted", vstr(list)); return; }
    double g = d.Probability(e), w = m.prob(v); MC_CHECK(close(g, w, 1e-12), what + ": probability", "of " << vstr(e.GetData()) << " as " << vstr(list) << " got " << g << " expected " << w); }, step);
  MC_CHECK(close(d.Integral(), m.integral(), 1e-12), what + ": integral", d.Integral() << " expected " << m.integral()); MC_CHECK(d.GetNDims() == m.dims(), what + ": dimensions", d.GetNDims()); MC_CHECK(d.GetName() == m.name, what + ": name", d.GetName() << " expected " << m.name); }
// a list of distinct observables, in any order
static VN selection(int most, const char *label) { VN s; int n = 1 + choose(most, label); for (int i = 0; i < n; i++) { VN left; for (auto &x : pool()) if (!std::count(s.begin(), s.end(), x)) left.push_back(x); s.push_back(pick(left, "observable")); } return s; }
static Pair any(const std::string &name, int salt, int most) { bool g = flip("analytic"); VN s = selection(most, "observables"); return g ? gauss(name, s, salt) : binned(name, s, salt); }
static VN layout() { static const std::vector<VN> l = {{"x", "y", "z"}, {"z", "y", "x"}, {"y", "w", "z", "x"}, {"w", "x", "w", "z", "y"}, {"y", "x"}, {"z"}}; return pick(l, "layout"); }

MC_SCENARIO(layouts) {
  Pair p = any("d", choose(3, "contents"), 3); VN list = layout(); MC_OP(vstr(p.m->obs) << " of " << vstr(list)); check(*p.e, *p.m, list, "distribution", list.size() > 3 ? 2 : 1);
  // sums to one
  if (p.m->kind == Model::BINNED) { BinnedED &b = dynamic_cast<BinnedED &>(*p.e); double s = 0; for (size_t i = 0; i < b.GetNBins(); i++) { VD v; for (size_t k = 0; k < p.m->obs.size(); k++) v.push_back(b.GetAxes().GetBinCentre(i, k)); s += b.Probability(v); } MC_CHECK(close(s, 1), "probabilities of a binned distribution don't sum to one", s); MC_CHECK(throws([&] { b.Probability(VD(p.m->obs.size() + 1, 0)); }) && throws([&] { b.Probability(VD(p.m->obs.size() - 1, 0)); }), "values of the wrong number accepted", ""); }
  else { AnalyticED &a = dynamic_cast<AnalyticED &>(*p.e); MC_CHECK(throws([&] { a.Probability(VD(p.m->obs.size() + 1, 0)); }), "values of the wrong number accepted", ""); VD v(p.m->obs.size(), 0.3); MC_CHECK(close(a.Probability(v), p.m->prob(v)), "probability of values", ""); }
  std::unique_ptr<EventDistribution> c(p.e->Clone()); p.e->Normalise(); check(*c, *p.m, list, "clone", 3); p.m->normalise(); check(*p.e, *p.m, list, "normalised", 2); state(Hash().vs(p.m->obs).vs(list).b(p.m->kind).h); }
MC_SCENARIO(wrong_number_of_observables) {
  Pair p = any("d", 1, 2); VN other = selection(3, "new observables"); static const VN list = {"x", "y", "z"}; BinnedED *b = dynamic_cast<BinnedED *>(p.e.get()); AnalyticED *a = dynamic_cast<AnalyticED *>(p.e.get()); if (b) b->SetObservables(other); else a->SetObservables(ObsSet(other));
  MC_CHECK((b ? VN(b->GetObservables()) : a->GetObservables().GetNames()) == other, "observables reported", ""); Event e(VD{0, 1, 2}); e.SetObservableNames(&list); bool fits = other.size() == p.m->obs.size();
  if (fits) { p.m->obs = other; check(*p.e, *p.m, list, "new observables"); } else { MC_CHECK(throws([&] { p.e->Probability(e); }), "wrong number of observables accepted", ""); if (b) MC_CHECK(throws([&] { b->Fill(e); }) && throws([&] { b->FindBin(e); }) && vclose(b->GetBinContents(), p.m->w) , "wrong number of observables filled", ""); } state(Hash().vs(other).vs(p.m->obs).h); }
MC_SCENARIO_SPLIT(composites, 3) {
  int shape = choose(6, "shape"); int most = shape == 0 ? 2 : shape < 3 ? tier(1, 2) : 1; Pair a = any("a", 0, most), b = any("b", 1, most), top; std::vector<Pair> keep = {a, b};
  switch (shape) {
    case 0: top = composite({a, b}, flip("operator")); break;
    case 1: { Pair c = any("c", 2, most); top = composite({a, b, c}, false); break; }
    case 2: { Pair c = any("c", 2, most); Pair ab = composite({a, b}, true); top = flip("right") ? composite({c, ab}, true) : composite({ab, c}, true); break; }
    case 3: { Pair ab = composite({a, b}, true); top = composite({ab, ab}, flip("operator")); break; }
    case 4: { Pair ab = composite({a, b}, false), c = any("c", 2, 1), abc = composite({ab, c}, true); top = composite({abc, a}, true); break; }
    case 5: { Pair one = composite({a}, false); top = composite({one, b}, true); break; }
  }
  VN list = layout(); MC_OP("composite " << top.m->name); check(*top.e, *top.m, list, "composite", list.size() > 3 ? 3 : list.size() > 2 ? 2 : 1);
  std::unique_ptr<EventDistribution> c(top.e->Clone()); a.e->Normalise(); if (auto *x = dynamic_cast<BinnedED *>(a.e.get())) { x->SetBinContent(0, 100); x->SetName("other"); } check(*top.e, *top.m, list, "composite after changing what it was made of", 3);
  top.e->Normalise(); check(*c, *top.m, list, "clone of a composite", 3); top.m->normalise(); check(*top.e, *top.m, list, "normalised composite", 3); MC_CHECK(close(top.e->Integral(), 1), "integral of a normalised composite", ""); top.e->SetName("renamed"); top.m->name = "renamed"; check(*top.e, *top.m, list, "renamed composite", 7); state(Hash().b(shape).s(top.m->name).vs(list).h); }
// one binned distribution, changed in any order
MC_SCENARIO_SPLIT(histories, 3) {
  bool spectral = flip("spectral"); VN s = {"y", "x"}; Pair p = binned("d", s, 1); if (spectral) { AxisCollection ax = dynamic_cast<BinnedED &>(*p.e).GetAxes(); auto *f = new SpectralFitDist("d", ax); f->SetObservables(s); for (size_t i = 0; i < p.m->bins(); i++) f->SetBinContent(f->FlattenIndices(p.m->unpack(i)), p.m->w[i]); p.e.reset(f); }
  BinnedED &d = dynamic_cast<BinnedED &>(*p.e); SpectralFitDist *sp = dynamic_cast<SpectralFitDist *>(p.e.get()); static const VN list = {"x", "w", "y"}; std::unique_ptr<EventDistribution> other; PM om; Model &m = *p.m; int n = tier(4, 6);
  auto order = [&](const VD &w) { VD v(w.size()); for (size_t i = 0; i < w.size(); i++) v[d.FlattenIndices(m.unpack(i))] = w[i]; return v; };
  for (int k = 0; k < n; k++) { int o = choose(spectral ? 10 : 8, "op"); MC_OP("op " << o);
    switch (o) {
      case 0: d.Normalise(); m.normalise(); break;
      case 1: d.Scale(2.5); for (double &x : m.w) x *= 2.5; break;
      case 2: { VD v = {-0.4, 4, 0.1}; Event e(v); e.SetObservableNames(&list); d.Fill(e, 0.75); m.w[m.bin(m.obs[0] == "y" ? VD{0.1, -0.4} : VD{-0.4, 0.1})] += 0.75; break; }
      case 3: std::swap(m.obs[0], m.obs[1]); d.SetObservables(m.obs); break;
      case 4: d.AddBinContent(d.FlattenIndices({1, 0}), 3); m.w[m.flat({1, 0})] += 3; break;
      case 5: { VD w; for (size_t i = 0; i < m.w.size(); i++) w.push_back(1 + i * i); m.w = w; d.SetBinContents(order(w)); break; }
      case 6: other.reset(d.Clone()); om = m.copy(); break;
      case 7: { VD v = {3, 0.2}; d.Fill(v, 2); m.w[m.bin(v)] += 2; break; }
      case 8: { size_t b = d.FlattenIndices({0, 1}); std::string nm = *std::next(sp->GetParameterNames().begin(), b); sp->SetParameter(nm, 6); MC_CHECK(sp->GetParameter(nm) == 6, "spectral parameter", ""); for (size_t i = 0; i < m.w.size(); i++) if (d.FlattenIndices(m.unpack(i)) == b) m.w[i] = 6; break; }
      case 9: { ParameterDict pd = sp->GetParameters(); for (auto &x : pd) x.second += 1; sp->SetParameters(pd); for (double &x : m.w) x += 1; break; }
    }
    if (fresh()) { check(d, m, list, "distribution", 2); MC_CHECK(vclose(d.GetBinContents(), order(m.w)), "bin contents", ""); if (other) check(*other, *om, list, "earlier clone", 3); state(Hash().vd(m.w).vs(m.obs).h); if (sp) { ParameterDict pd = sp->GetParameters(); MC_CHECK(pd.size() == m.w.size() && sp->GetParameterCount() == m.w.size(), "spectral parameter count", ""); for (size_t b = 0; b < m.w.size(); b++) MC_CHECK(pd[MC_STR("d_bin_" << b)] == d.GetBinContent(b), "spectral parameter of a bin", b); } } } }
// an analytic distribution follows the parameters of its function
MC_SCENARIO(analytic_parameters) {
  static const VN list = {"z", "y", "x"}; Pair p = gauss("d", selection(2, "observables"), 1); AnalyticED &d = dynamic_cast<AnalyticED &>(*p.e); int n = tier(3, 4); size_t dims = p.m->mean.size(); std::unique_ptr<EventDistribution> other; PM om; VN names; { std::set<std::string> s = d.GetParameterNames(); names.assign(s.begin(), s.end()); } MC_CHECK(names.size() == 2 * dims && d.GetParameterCount() == 2 * dims, "parameters of a distribution", "");
  auto which = [&](const std::string &nm) -> double & { for (size_t i = 0; i < dims; i++) { if (nm.find(MC_STR("means_" << i)) != std::string::npos) return p.m->mean[i]; if (nm.find(MC_STR("stddevs_" << i)) != std::string::npos) return p.m->sd[i]; } throw std::runtime_error("no such parameter " + nm); };
  for (int k = 0; k < n; k++) { int o = choose(5, "op"); MC_OP("op " << o);
    switch (o) { case 0: { std::string nm = names[choose((int)names.size(), "parameter")]; double v = 0.4 + k; d.SetParameter(nm, v); which(nm) = v; MC_CHECK(d.GetParameter(nm) == v, "parameter", ""); break; }
      case 1: { ParameterDict pd = d.GetParameters(); double x = 0.3; for (auto &q : pd) { q.second = x += 0.4; which(q.first) = x; } d.SetParameters(pd); break; }
      case 2: d.Normalise(); p.m->normalise(); break; case 3: std::reverse(p.m->obs.begin(), p.m->obs.end()); d.SetObservables(ObsSet(p.m->obs)); break; case 4: other.reset(d.Clone()); om = p.m->copy(); break; }
    if (fresh()) { check(d, *p.m, list, "analytic distribution", 2); if (other) check(*other, *om, list, "earlier clone", 3); state(Hash().vd(p.m->mean).vd(p.m->sd).vs(p.m->obs).h); } } }
// a weighted sum of members in the order added
MC_SCENARIO_SPLIT(manager, 3) {
  static const VN list = {"y", "x", "z"}; static std::vector<Pair> all; if (all.empty()) { all.push_back(binned("b", {"x", "y"}, 0)); all.push_back(gauss("a", {"z", "x"}, 1)); all.push_back(composite({gauss("p", {"y"}, 1), binned("q", {"z"}, 2)}, true)); all.push_back(binned("c", {"z"}, 1)); }
  EDManager man, second; std::vector<int> in, in2; VD norms, norms2; VN names, names2; bool haveSecond = false; int n = tier(5, 6);
  auto prob = [&](const EDManager &mm, const std::vector<int> &in, const VD &norms, const VN &names, const std::string &what) {
    MC_CHECK(mm.GetNDists() == in.size() && mm.GetNormalisations() == norms, what + ": normalisations", vstr(mm.GetNormalisations()) << " expected " << vstr(norms)); if (in.size()) MC_CHECK(mm.GetNDims() == all[in[0]].m->dims(), what + ": dimensions", mm.GetNDims());
    ParameterDict pd; for (size_t i = 0; i < in.size(); i++) pd[names[i]] = norms[i]; MC_CHECK(mm.GetParameters() == pd && mm.GetParameterCount() == in.size(), what + ": parameters", mstr(mm.GetParameters()) << " expected " << mstr(pd));
    events(list, [&](const Event &e, const std::map<std::string, double> &v) { double w = 0; for (size_t i = 0; i < in.size(); i++) w += norms[i] * all[in[i]].m->prob(v); double g = mm.Probability(e); MC_CHECK(close(g, w), what + ": probability", g << " expected " << w); }, 3); };
  for (int k = 0; k < n; k++) { int o = choose(8, "op");
    switch (o) {
      case 0: { int j = choose(4, "dist"); MC_OP("add " << j); bool fits = in.empty() || all[j].m->dims() == all[in[0]].m->dims(); bool twice = std::count(in.begin(), in.end(), j) || std::count(names.begin(), names.end(), all[j].m->name); bool refused = throws([&] { man.AddDist(all[j].e.get()); }); MC_CHECK(refused == (!fits || twice), refused ? "member refused" : "member with the wrong dimensions or a name taken accepted", all[j].m->name); if (!refused) { in.push_back(j); norms.push_back(0); names.push_back(all[j].m->name); } break; }
      case 1: { VD v; for (size_t i = 0; i < in.size(); i++) v.push_back((1.5 + i + k) * (i % 2 ? -1 : 1)); MC_OP("normalisations " << vstr(v)); man.SetNormalisations(v); norms = v; VD bad = v; bad.push_back(1); MC_CHECK(throws([&] { man.SetNormalisations(bad); }), "normalisations of the wrong number accepted", ""); break; }
      case 2: { if (in.empty()) prune(); size_t i = choose((int)in.size(), "which"); MC_OP("parameter " << i); man.SetParameter(names[i], 0.25 + k); norms[i] = 0.25 + k; MC_CHECK(man.GetParameter(names[i]) == norms[i], "parameter", ""); break; }
      case 3: { ParameterDict pd; for (size_t i = 0; i < in.size(); i++) pd[names[i]] = norms[i] = 3. / (i + 1); pd["unrelated"] = 1; MC_OP("all parameters"); man.SetParameters(pd); break; }
      case 4: { if (in.empty()) prune(); size_t i = choose((int)in.size(), "which"); std::string nn = MC_STR("n" << k); MC_OP("rename " << i); man.RenameParameter(names[i], nn); names[i] = nn; break; }
      case 5: MC_OP("copy out"); second = man; in2 = in; norms2 = norms; names2 = names; haveSecond = true; break;
      case 6: if (!haveSecond) prune(); MC_OP("copy back"); man = second; in = in2; norms = norms2; names = names2; break;
      case 7: { if (in.size()) prune(); std::vector<EventDistribution *> v = {all[1].e.get(), all[2].e.get(), all[0].e.get()}; MC_OP("add several"); man.AddDists(v); for (int j : {1, 2, 0}) { in.push_back(j); norms.push_back(0); names.push_back(all[j].m->name); } break; }
    }
    if (fresh()) { prob(man, in, norms, names, "manager"); if (haveSecond) prob(second, in2, norms2, names2, "copy of a manager"); Hash h; for (int j : in) h.b(j); state(h.vd(norms).vs(names).h); } } }
// products of many parts, sums of many members, many bins
MC_SCENARIO(many_parts) {
  int n = 1 + choose(tier(9, 14), "parts"), shape = choose(4, "shape"), kind = choose(3, "kinds"); std::vector<Pair> ps; VN list; for (int i = 0; i < n; i++) { std::string nm = "o" + std::to_string(i); VN o = {nm}; if (i && kind == 2) o.insert(o.begin(), "o" + std::to_string(i - 1)); ps.push_back(kind == 0 || (kind == 2 && i % 2) ? binned("p" + std::to_string(i), o, i % 3) : gauss("p" + std::to_string(i), o, i % 3)); list.insert(list.begin(), nm); }
  if (n % 2) list.push_back("other"); Pair top; if (shape == 0) top = composite(ps, false); else if (shape == 1) { top = ps[0]; for (int i = 1; i < n; i++) top = composite({top, ps[i]}, true); } else if (shape == 2) { top = ps[n - 1]; for (int i = n - 1; i-- > 0;) top = composite({ps[i], top}, true); } else { std::vector<Pair> l = ps; while (l.size() > 1) { std::vector<Pair> q; for (size_t i = 0; i + 1 < l.size(); i += 2) q.push_back(composite({l[i], l[i + 1]}, true)); if (l.size() % 2) q.push_back(l.back()); l = q; } top = l[0]; }
  MC_OP(n << " parts, shape " << shape << " kinds " << kind); auto look = [&](const EventDistribution &d, const Model &m, const std::string &what) { for (int t = 0; t < 24; t++) { VD v; std::map<std::string, double> mp; for (size_t i = 0; i < list.size(); i++) { v.push_back(probes()[(t + i * (1 + t / 8)) % 8] * (kind == 0 ? 1 : 0.5)); mp[list[i]] = v[i]; } Event e(v); e.SetObservableNames(&list); double g = d.Probability(e), w = m.prob(mp); MC_CHECK(close(g, w, 1e-10, 0), what + ": probability", vstr(v) << " got " << g << " expected " << w); } MC_CHECK(close(d.Integral(), m.integral(), 1e-10) && d.GetNDims() == m.dims(), what + ": integral or dimensions", d.Integral() << " expected " << m.integral()); };
  look(*top.e, *top.m, "many parts"); std::unique_ptr<EventDistribution> c(top.e->Clone()); PM m = top.m->copy(); top.e->Normalise(); top.m->normalise(); look(*c, *m, "clone of many parts"); look(*top.e, *top.m, "many parts normalised"); if (n > 1) { VN less(list.begin() + 1, list.end()); VD v(less.size(), 0.1); Event e(v); e.SetObservableNames(&less); MC_CHECK(throws([&] { c->Probability(e); }), "many parts: event without the observable accepted", ""); } state(Hash().b(n).b(shape).b(kind).d(top.m->integral()).h);
}
// a part that holds nothing: the product holds nothing
MC_SCENARIO(empty_part) {
  int n = 2 + choose(3, "parts"), which = choose(n, "empty"), shape = choose(2, "shape"); std::vector<Pair> ps; for (int i = 0; i < n; i++) { ps.push_back(i == which || i % 2 ? binned("p" + std::to_string(i), {"o" + std::to_string(i)}, i % 3) : gauss("p" + std::to_string(i), {"o" + std::to_string(i)}, i % 3)); if (i == which) { auto &b = dynamic_cast<BinnedED &>(*ps[i].e); b.Empty(); for (double &x : ps[i].m->w) x = 0; } }
  Pair top; if (shape == 0) top = composite(ps, false); else { top = ps[0]; for (int i = 1; i < n; i++) top = composite({top, ps[i]}, true); } MC_OP(n << " parts, " << which << " empty"); std::unique_ptr<EventDistribution> c(top.e->Clone()); MC_CHECK(top.e->Integral() == 0 && c->Integral() == 0 && top.e->GetNDims() == top.m->dims(), "empty part: integral", top.e->Integral()); state(Hash().b(n).b(which).b(shape).h); }
MC_SCENARIO(many_members) {
  int n = 2 + choose(tier(16, 40), "members"), pat = choose(3, "order of parameters"); static const VN list = {"y", "x"}; std::vector<Pair> ps; EDManager man; VD norms; for (int i = 0; i < n; i++) { ps.push_back(i % 3 == 1 ? gauss("p" + std::to_string(i), {i % 2 ? "x" : "y"}, i % 4) : binned("p" + std::to_string(i), {i % 2 ? "y" : "x"}, i % 5)); man.AddDist(ps[i].e.get()); norms.push_back(0); } MC_OP(n << " members"); MC_CHECK(man.GetNDists() == (size_t)n && man.GetNormalisations() == norms, "many members: number", "");
  auto look = [&](const char *w) { MC_CHECK(vclose(man.GetNormalisations(), norms), std::string("many members: normalisations ") + w, vstr(man.GetNormalisations())); for (double x : {-0.9, 0.1, 0.6, 2.}) for (double y : {-0.5, 0.4, 1.2, 5.}) { VD v = {y, x}; Event e(v); e.SetObservableNames(&list); double want = 0; for (int i = 0; i < n; i++) want += norms[i] * ps[i].m->prob(std::map<std::string, double>{{"x", x}, {"y", y}}); MC_CHECK(close(man.Probability(e), want, 1e-10), std::string("many members: probability ") + w, man.Probability(e) << " expected " << want); } state(Hash().vd(norms).h); };
  for (int i = 0; i < n; i++) norms[i] = 1.5 + i; man.SetNormalisations(norms); look("set in order"); ParameterDict d; for (int i = 0; i < n; i++) d["p" + std::to_string(i)] = norms[i] = (0.25 + (i * 7 % n) * 0.5) * (i % 5 == 4 ? -1 : 1); man.SetParameters(d); look("set by name"); MC_CHECK(mclose(man.GetParameters(), d), "many members: parameters", ""); for (int k = 0; k < n; k++) { int i = pat == 0 ? k : pat == 1 ? n - 1 - k : k * 2 % n; man.SetParameter("p" + std::to_string(i), norms[i] = 3 + k); } look("set singly"); man.RenameParameter("p" + std::to_string(n - 1), "zz"); man.SetParameter("zz", norms[n - 1] = 0.125); look("renamed"); EDManager c(man); norms[0] = 77; man.SetParameter("p0", 77); look("after copy"); man = c; norms[0] = c.GetParameter("p0"); look("copy back");
}
