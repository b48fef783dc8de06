// C16 every fittable component tells one consistent story about its parameters
#include "mc.h"
#include <Scale.h>
#include <Shift.h>
#include <ScaleFunction.h>
#include <Shape.h>
#include <Renorm.h>
#include <Convolution.h>
#include <Gaussian.h>
#include <JumpPDF.h>
#include <VaryingCDF.h>
#include <SquareRootScale.h>
#include <AnalyticED.h>
#include <SpectralFitDist.h>
#include <EDManager.h>
#include <BinnedEDManager.h>
#include <SystematicManager.h>
#include <EventScale.h>
#include <EventShift.h>
#include <EventReconvolution.h>
#include <EventConvolution.h>
#include <Event.h>
#include <TRandom3.h>
#include <memory>
#include <algorithm>
using namespace mc;
typedef std::vector<double> VD;
typedef std::vector<std::string> VN;

struct Kind {
  std::string title; std::shared_ptr<FitComponent> c; VN names; VD vals; bool tie = false, partial = false;
  std::shared_ptr<VN> live;                                   // the current names, for user functions that look parameters up by name
  std::function<VD()> got; std::function<VD(const VD &)> want;
  std::vector<std::shared_ptr<void>> keep;
};
static const double C[3] = {1, 2, 4};
static AxisCollection axes3() { AxisCollection a; a.AddAxis(BinAxis("x", 0, 3, 3)); return a; }
static BinnedED dist3(const std::string &n = "d") { BinnedED d(n, axes3()); d.SetObservables(VN{"x"}); for (int i = 0; i < 3; i++) d.SetBinContent(i, C[i]); return d; }
static double ov(double lo, double hi, double a, double b) { return std::max(0., std::min(hi, b) - std::max(lo, a)) / (hi - lo); }
static VD moved(std::function<double(double)> f) { VD o(3, 0); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o[j] += C[i] * ov(f(i), f(i + 1), j, j + 1); return o; }
static double cdf(double x, double m, double s) { double n = (x - m) / s; return n > 6 ? 1 : n < -6 ? 0 : 0.5 * std::erfc(-n / std::sqrt(2.)); }
static double gaus(double x, double m, double s) { return std::exp(-0.5 * (x - m) * (x - m) / s / s) / std::sqrt(2 * M_PI) / s; }
static VD smeared(std::function<void(double, double &, double &)> ms) { VD o(3, 0); for (int i = 0; i < 3; i++) { double m, s; ms(i + 0.5, m, s); for (int j = 0; j < 3; j++) o[j] += C[i] * (cdf(j + 1 - i - 0.5, m, s) - cdf(j - i - 0.5, m, s)); } return o; }
template <class T> static void sys(Kind &k, std::shared_ptr<T> s) {
  s->SetAxes(axes3()); s->SetDistributionObs(VN{"x"}); s->SetTransformationObs(VN{"x"}); k.c = s;
  k.got = [s] { s->Construct(); double n; return (*s)(dist3(), &n).GetBinContents(); };
}
static Event ev() { Event e(VD{1.5, 0.25}); static const VN n = {"x", "y"}; e.SetObservableNames(&n); return e; }
template <class T> static void evs(Kind &k, std::shared_ptr<T> s) { s->SetInObservables(VN{"y"}); s->SetOutObservables(VN{"x"}); k.c = s; k.got = [s] { return VD{(*s)(ev()).GetDatum("x")}; }; }
static const int NK = 28;
static Kind make(int i) {
  static const int twice[6] = {2, 3, 4, 5, 9, 21}; bool again = i >= 22; if (again) i = twice[i - 22];   // what it computes with is given twice: only the second counts
  Kind k; k.live.reset(new VN); auto live = k.live; AxisCollection ax = axes3();
  switch (i) {
    case 0: k.title = "scale"; k.names = {"scaleFactor"}; k.vals = {1}; sys(k, std::make_shared<Scale>("s")); k.want = [](const VD &v) { return moved([=](double x) { return x * v[0]; }); }; break;
    case 1: k.title = "shift"; k.names = {"shift"}; k.vals = {0}; sys(k, std::make_shared<Shift>("s")); k.want = [](const VD &v) { return moved([=](double x) { return x + v[0]; }); }; break;
    case 2: { k.title = "scale function"; auto s = std::make_shared<ScaleFunction>("s"); k.names = {"a", "b"}; k.vals = {0, 0}; if (again) s->SetScaleFunction([](const ParameterDict &, const double &x) { return x; }, VN{"old", "b"}); s->SetScaleFunction([live](const ParameterDict &p, const double &x) { return p.at((*live)[0]) * x + p.at((*live)[1]); }, VN{"a", "b"}); sys(k, s); k.want = [](const VD &v) { if (v[0] == 0) return VD(); return moved([=](double x) { return v[0] * x + v[1]; }); }; break; }
    case 3: { k.title = "shape"; auto s = std::make_shared<Shape>("s"); k.names = {"a", "b"}; k.vals = {0, 0}; if (again) s->SetShapeFunction([](const ParameterDict &, const VD &) { return 1.; }, VN{"a", "old"}); s->SetShapeFunction([live](const ParameterDict &p, const VD &x) { return p.at((*live)[0]) * x[0] + p.at((*live)[1]); }, VN{"a", "b"}); sys(k, s); k.want = [](const VD &v) { VD o; for (int j = 0; j < 3; j++) o.push_back(C[j] * (v[0] * (j + 0.5) + v[1])); return o; }; break; }
    case 4: { k.title = "convolution"; auto s = std::make_shared<Convolution>("s"); Gaussian g(0.25, 1.5); if (again) { Gaussian o(1, 3); o.RenameParameter("means_0", "old"); s->SetFunction(&o); s->SetParameter("old", 2); } s->SetFunction(&g); k.names = {"means_0", "stddevs_0"}; k.vals = {0.25, 1.5}; k.tie = k.partial = true; sys(k, s); k.want = [](const VD &v) { return smeared([=](double, double &m, double &s) { m = v[0]; s = v[1]; }); }; break; }
    case 5: { k.title = "varying convolution"; auto s = std::make_shared<Convolution>("s"); Gaussian g(0, 1); g.RenameParameter("stddevs_0", "w"); VaryingCDF c("c"); c.SetKernel(&g); SquareRootScale f("f"); f.SetGradient(0.5); c.SetDependance("w", &f); if (again) { Gaussian o(0, 1); s->SetFunction(&o); } s->SetConditionalPDF(&c); k.names = {"grad"}; k.vals = {0.5}; sys(k, s); k.want = [](const VD &v) { return smeared([=](double x, double &m, double &s) { m = 0; s = v[0] * std::sqrt(x); }); }; break; }
    case 6: { k.title = "gaussian 1d"; auto g = std::make_shared<Gaussian>(0.25, 1.5, "g"); k.c = g; k.names = {"means_0", "stddevs_0"}; k.vals = {0.25, 1.5}; k.tie = k.partial = true; k.got = [g] { return VD{(*g)(VD{1}), g->Integral(VD{0}, VD{1})}; }; k.want = [](const VD &v) { return VD{gaus(1, v[0], v[1]), cdf(1, v[0], v[1]) - cdf(0, v[0], v[1])}; }; break; }
    case 7: { k.title = "gaussian 2d"; auto g = std::make_shared<Gaussian>(VD{0.25, 0.5}, VD{1.5, 3}, "g"); k.c = g; k.names = {"means_0", "means_1", "stddevs_0", "stddevs_1"}; k.vals = {0.25, 0.5, 1.5, 3}; k.tie = k.partial = true; k.got = [g] { return VD{(*g)(VD{1, 2}), g->GetMean(0), g->GetMean(1), g->GetStDev(0), g->GetStDev(1)}; }; k.want = [](const VD &v) { return VD{gaus(1, v[0], v[2]) * gaus(2, v[1], v[3]), v[0], v[1], v[2], v[3]}; }; break; }
    case 8: { k.title = "jump pdf"; Gaussian g(0.25, 1.5); auto j = std::make_shared<JumpPDF>("j", &g); k.c = j; k.names = {"means_0", "stddevs_0"}; k.vals = {0.25, 1.5}; k.tie = k.partial = true; k.got = [j] { return VD{j->ConditionalProbability(VD{1}, VD{0.5})}; }; k.want = [](const VD &v) { return VD{gaus(0.5, v[0], v[1])}; }; break; }
    case 9: case 10: { bool same = i == 10; k.title = same ? "varying cdf, one shared parameter" : "varying cdf"; Gaussian g(0, 1); auto c = std::make_shared<VaryingCDF>("c"); c->SetKernel(&g); if (again) { SquareRootScale o("o"); o.RenameParameter("grad", "old"); o.SetGradient(7); c->SetDependance("means_0", &o); } SquareRootScale f("f"), h("h"); f.RenameParameter("grad", "p"); h.RenameParameter("grad", same ? "p" : "q"); f.SetGradient(0.5); h.SetGradient(same ? 0.5 : 2); c->SetDependance("means_0", &f); c->SetDependance("stddevs_0", &h); k.c = c; k.names = same ? VN{"p"} : VN{"p", "q"}; k.vals = same ? VD{0.5} : VD{0.5, 2}; k.got = [c] { return VD{c->ConditionalProbability(VD{4}, VD{2.25})}; }; k.want = [same](const VD &v) { return VD{gaus(1.75, 1.5 * v[0], 1.5 * v[same ? 0 : 1])}; }; break; }
    case 11: { k.title = "square root"; auto f = std::make_shared<SquareRootScale>("f"); k.c = f; k.names = {"grad"}; k.vals = {1}; k.got = [f] { return VD{(*f)(VD{2.5}), (*f)(VD{0.5}), f->GetGradient()}; }; k.want = [](const VD &v) { return VD{v[0] * std::sqrt(2.5), v[0] * std::sqrt(0.5), v[0]}; }; break; }
    case 12: { k.title = "analytic distribution"; Gaussian g(0.25, 1.5); auto a = std::make_shared<AnalyticED>("a", &g); a->SetObservables(VN{"x"}); k.c = a; k.names = {"means_0", "stddevs_0"}; k.vals = {0.25, 1.5}; k.tie = k.partial = true; k.got = [a] { return VD{a->Probability(VD{1}), a->Probability(ev())}; }; k.want = [](const VD &v) { return VD{gaus(1, v[0], v[1]), gaus(1.5, v[0], v[1])}; }; break; }
    case 13: { k.title = "spectral distribution"; auto s = std::make_shared<SpectralFitDist>("f", ax); s->SetObservables(VN{"x"}); for (int b = 0; b < 3; b++) s->SetBinContent(b, C[b]); k.c = s; k.names = {"f_bin_0", "f_bin_1", "f_bin_2"}; k.vals = {1, 2, 4}; k.got = [s] { VD c = s->GetBinContents(); c.push_back(s->Probability(VD{1.5})); c.push_back(s->Integral()); return c; }; k.want = [](const VD &v) { double t = v[0] + v[1] + v[2]; return VD{v[0], v[1], v[2], v[1] / t, t}; }; break; }
    case 14: { k.title = "distribution manager"; auto m = std::make_shared<EDManager>(); auto a = dist3("one"), b = dist3("two"); b.SetBinContent(1, 9); m->AddDist(&a); m->AddDist(&b); k.c = m; k.names = {"one", "two"}; k.vals = {0, 0}; k.got = [m] { VD o = m->GetNormalisations(); o.push_back(m->Probability(ev())); return o; }; k.want = [](const VD &v) { return VD{v[0], v[1], v[0] * 2 / 7. + v[1] * 9 / 14.}; }; break; }
    case 15: case 16: case 17: { k.title = "binned manager"; auto m = std::make_shared<BinnedEDManager>(); auto a = dist3("one"), b = dist3("two"); b.SetBinContent(1, 9); a.Normalise(); b.Normalise(); NormFittingStatus s[3][2] = {{DIRECT, DIRECT}, {DIRECT, INDIRECT}, {INDIRECT, FALSE}}; auto *q = s[i - 15]; m->AddPdf(a, q[0]); m->AddPdf(b, q[1]); k.c = m; bool both = q[1] != FALSE; k.names = both ? VN{"one", "two"} : VN{"one"}; k.vals = VD(k.names.size(), 0);
      k.got = [m] { m->ApplySystematics(SystematicManager()); m->ReassertNorms(); return VD{m->BinProbability(0), m->BinProbability(1)}; }; k.want = [both](const VD &v) { double w = both ? v[1] : 1; return VD{v[0] / 7 + w / 14, v[0] * 2 / 7 + w * 9 / 14}; }; break; }
    case 18: k.title = "event scale"; k.names = {"scale"}; k.vals = {1}; evs(k, std::make_shared<EventScale>("e")); k.want = [](const VD &v) { return VD{1.5 * v[0]}; }; break;
    case 19: k.title = "event shift"; k.names = {"shift"}; k.vals = {0}; evs(k, std::make_shared<EventShift>("e")); k.want = [](const VD &v) { return VD{1.5 + v[0]}; }; break;
    case 20: k.title = "event reconvolution"; k.names = {"correction"}; k.vals = {1}; evs(k, std::make_shared<EventReconvolution>("e")); k.want = [](const VD &v) { return VD{0.25 + v[0] * 1.25}; }; break;
    case 21: { k.title = "event convolution"; auto s = std::make_shared<EventConvolution>("e"); Gaussian g(0.25, 1.5); if (again) { Gaussian o(1, 3); o.RenameParameter("means_0", "old"); s->SetPDF(&o); } s->SetPDF(&g); k.names = {"means_0", "stddevs_0"}; k.vals = {0.25, 1.5}; k.tie = k.partial = true; evs(k, s); RandHooks::gaus() = [](double m, double s) { return m + 0.5 * s; }; k.want = [](const VD &v) { return VD{1.5 + v[0] + 0.5 * v[1]}; }; break; }
  }
  *k.live = k.names; if (again) k.title += ", given twice"; return k;
}
static int at(const VN &v, const std::string &n) { for (size_t i = 0; i < v.size(); i++) if (v[i] == n) return i; return -1; }

MC_SCENARIO_SPLIT(stories, 3) {
  int which = choose(NK, "component"); Kind k = make(which); MC_OP(k.title); FitComponent &c = *k.c; for (size_t i = 0; i < k.names.size(); i++) k.vals[i] = c.GetParameter(k.names[i]);   // whatever it starts with
  VN pool = k.names; if (pool.size() > 2 && !thorough()) { pool = {k.names[0], k.names[1], k.names.back()}; } pool.push_back("n1"); if (thorough() || pool.size() < 3) pool.push_back("n2"); bool small = k.names.size() < 2; int n = small ? tier(4, 5) : tier(3, 4);
  static const VD vals = {0.5, 2};
  for (int s = 0; s < n; s++) {
    switch (choose(5, "op")) {
      case 0: { std::string nm = pool[choose((int)pool.size(), "name")]; double v = vals[choose(2, "value")] + 0.125 * s; MC_OP("set " << nm << " to " << v); bool t = throws([&] { c.SetParameter(nm, v); });
        MC_CHECK(t == (at(k.names, nm) < 0), t ? "setting an existing parameter refused" : "setting an unknown parameter accepted", k.title << " " << nm);
        for (size_t i = 0; i < k.names.size(); i++) if (k.names[i] == nm) k.vals[i] = v; break; }
      case 1: { ParameterDict d; bool extra = flip("more than its own"); for (size_t i = 0; i < k.names.size(); i++) if (!d.count(k.names[i])) d[k.names[i]] = 0.75 + 0.5 * i + 0.0625 * s; if (extra) { d["zz"] = 7; d["0"] = 8; d["m"] = -1; } MC_OP("set all " << mstr(d)); c.SetParameters(d); for (size_t i = 0; i < k.names.size(); i++) k.vals[i] = d[k.names[i]]; break; }
      case 2: { std::string g = k.names[choose((int)k.names.size(), "missing")]; ParameterDict d; for (size_t i = 0; i < k.names.size(); i++) if (k.names[i] != g) d[k.names[i]] = 0.875 + 0.5 * i + 0.0625 * s; d["zz"] = 3; MC_OP("set without " << g); bool t = throws([&] { c.SetParameters(d); });
        if (k.partial) { MC_CHECK(!t, "partial update refused", k.title); for (size_t i = 0; i < k.names.size(); i++) if (d.count(k.names[i])) k.vals[i] = d[k.names[i]]; }
        else { MC_CHECK(t, "incomplete set accepted", k.title); ParameterDict now = c.GetParameters(); MC_CHECK(now.size() == k.names.size() && now.count(g), "parameters changed by a refused set", k.title); int i = at(k.names, g); MC_CHECK(now[g] == k.vals[i], "the missing parameter changed", k.title << " " << g); for (size_t j = 0; j < k.names.size(); j++) k.vals[j] = now[k.names[j]]; } break; }
      case 3: { std::string o = pool[choose((int)pool.size(), "old")], w = pool[choose((int)pool.size(), "new")]; MC_OP("rename " << o << " to " << w); if (o == w && at(k.names, o) >= 0) { throws([&] { c.RenameParameter(o, w); }); break; }   /* refused or not, nothing changes */ int a = at(k.names, o), b = at(k.names, w); bool ok = a >= 0 && (b < 0 || k.tie); bool t = throws([&] { c.RenameParameter(o, w); });
        MC_CHECK(t == !ok, t ? "renaming refused" : a < 0 ? "renaming an unknown parameter accepted" : "renaming onto a taken name accepted", k.title << " " << o << " to " << w);
        if (ok) for (size_t i = 0; i < k.names.size(); i++) if (k.names[i] == o) { k.names[i] = w; if (b >= 0) k.vals[i] = k.vals[b]; } *k.live = k.names; break; }
      case 4: { if (s + 1 < n) prune(); MC_OP("name of the component"); c.SetName("other"); MC_CHECK(c.GetName() == "other", "name", k.title); break; }
    }
    if (!fresh()) continue;
    ParameterDict d; for (size_t i = 0; i < k.names.size(); i++) d[k.names[i]] = k.vals[i]; std::set<std::string> n2; for (auto &x : d) n2.insert(x.first);
    MC_CHECK(c.GetParameterNames() == n2, "names", k.title); MC_CHECK(c.GetParameterCount() == n2.size(), "number of parameters", k.title << " says " << c.GetParameterCount() << " has " << n2.size());
    MC_CHECK(c.GetParameters() == d, "name to value map", k.title << " got " << mstr(c.GetParameters()) << " expected " << mstr(d));
    for (auto &x : d) MC_CHECK(c.GetParameter(x.first) == x.second, "value read", k.title << " " << x.first << " got " << c.GetParameter(x.first) << " expected " << x.second);
    for (auto &x : pool) if (!d.count(x)) MC_CHECK(throws([&] { c.GetParameter(x); }), "unknown parameter answered", k.title << " " << x);
    VD w = k.want(k.vals); if (w.empty()) continue; VD g = k.got(); MC_CHECK(vclose(g, w, 1e-9, 1e-9), "computed value", k.title << " got " << vstr(g) << " expected " << vstr(w) << " at " << mstr(d)); MC_CHECK(c.GetParameters() == d, "parameters changed by computing", k.title); state(Hash().s(k.title).md(d).h);
  }
}
// Renorm has no parameters of its own
MC_SCENARIO(renorm) {
  Renorm r("r"); r.SetAxes(axes3()); r.SetDistributionObs(VN{"x"}); r.SetTransformationObs(VN{"x"}); double f = VD{0.5, 1, 3}[choose(3, "factor")]; r.SetScaleFactor(f); int o = choose(3, "op");
  if (o == 0) MC_CHECK(throws([&] { r.SetParameter("x", 1); }), "renorm: unknown parameter set", ""); if (o == 1) MC_CHECK(throws([&] { r.RenameParameter("x", "y"); }), "renorm: unknown parameter renamed", ""); if (o == 2) { ParameterDict d; d["x"] = 2; r.SetParameters(d); }
  MC_CHECK(r.GetParameterCount() == 0 && r.GetParameterNames().empty() && r.GetParameters().empty() && throws([&] { r.GetParameter("x"); }), "renorm: parameters", "");
  r.Construct(); double all; VD c = r(dist3(), &all).GetBinContents(); MC_CHECK(close(c[1], 2 * f) && r.GetScaleFactor() == f, "renorm: content", "");
}
// more parameters than one digit can number: the k-th parameter stays the k-th value
MC_SCENARIO(many) {
  int kind = choose(6, "component"); static const std::vector<int> nums = {2, 11, 12, 103}; int N = nums[choose(kind < 2 ? 4 : 3, "parameters")]; if (kind >= 4 && N > 12) prune();
  std::shared_ptr<FitComponent> c; VN names; VD vals; std::function<VD()> got; std::function<VD(const VD &)> want; std::string title; std::vector<std::shared_ptr<void>> keep;
  auto num = [](const std::string &s, int i) { std::ostringstream o; o << s << i; return o.str(); };
  AxisCollection ax; ax.AddAxis(BinAxis("x", 0, N, N)); VN obs; for (int i = 0; i < N; i++) obs.push_back(num("o", i));
  if (kind == 0) { title = "spectral distribution"; auto s = std::make_shared<SpectralFitDist>("f", ax); s->SetObservables(VN{"x"}); c = s; for (int i = 0; i < N; i++) { s->SetBinContent(i, 1 + 0.5 * i); vals.push_back(1 + 0.5 * i); names.push_back(num("f_bin_", i)); } got = [s, N] { VD o = s->GetBinContents(); for (int i = 0; i < N; i++) o.push_back(s->Probability(VD{i + 0.5})); return o; }; want = [](const VD &v) { VD o = v; double t = 0; for (double x : v) t += x; for (double x : v) o.push_back(x / t); return o; }; }
  else if (kind == 1) { title = "distribution manager"; auto m = std::make_shared<EDManager>(); c = m; for (int i = 0; i < N; i++) { auto d = std::make_shared<BinnedED>(num("p", i), ax); d->SetObservables(VN{"x"}); d->SetBinContent(i, 1); keep.push_back(d); m->AddDist(d.get()); vals.push_back(0); names.push_back(num("p", i)); } got = [m, N] { VD o = m->GetNormalisations(); for (int i = 0; i < N; i++) { Event e(VD{i + 0.5}); VN n = {"x"}; e.SetObservableNames(&n); o.push_back(m->Probability(e)); } return o; }; want = [](const VD &v) { VD o = v; o.insert(o.end(), v.begin(), v.end()); return o; }; }
  else if (kind == 2 || kind == 3) { title = kind == 2 ? "binned manager" : "binned manager, mixed norms"; auto m = std::make_shared<BinnedEDManager>(); c = m; std::vector<bool> fixed; for (int i = 0; i < N; i++) { BinnedED d(num("p", i), ax); d.SetObservables(VN{"x"}); d.SetBinContent(i, 1); bool held = kind == 3 && i % 3 == 1; fixed.push_back(held); m->AddPdf(d, held ? FALSE : kind == 3 && i % 3 == 2 ? INDIRECT : DIRECT); if (!held) { vals.push_back(0); names.push_back(num("p", i)); } }
    got = [m, N] { m->ApplySystematics(SystematicManager()); m->ReassertNorms(); VD o; for (int i = 0; i < N; i++) o.push_back(m->BinProbability(i)); return o; }; want = [fixed](const VD &v) { VD o; size_t k = 0; for (bool f : fixed) o.push_back(f ? 1 : v[k++]); return o; }; }
  else { title = kind == 4 ? "gaussian" : "analytic distribution"; auto g = std::make_shared<Gaussian>(VD(N, 0), VD(N, 1), "g"); std::shared_ptr<AnalyticED> a; if (kind == 5) { a = std::make_shared<AnalyticED>("a", g.get()); a->SetObservables(obs); c = a; } else c = g; for (int i = 0; i < N; i++) { names.push_back(num("means_", i)); vals.push_back(0); } for (int i = 0; i < N; i++) { names.push_back(num("stddevs_", i)); vals.push_back(1); }
    got = [g, a, N] { VD o; for (int k = -1; k < N; k++) { VD x(N, 1); if (k >= 0) x[k] = 2.5; o.push_back(std::log(a ? a->Probability(x) : (*g)(x))); } if (!a) for (int i = 0; i < N; i++) { o.push_back(g->GetMean(i)); o.push_back(g->GetStDev(i)); } return o; };
    want = [kind, N](const VD &v) { VD o; for (int k = -1; k < N; k++) { double l = 0; for (int i = 0; i < N; i++) l += std::log(gaus(i == k ? 2.5 : 1, v[i], v[N + i])); o.push_back(l); } if (kind == 4) for (int i = 0; i < N; i++) { o.push_back(v[i]); o.push_back(v[N + i]); } return o; }; }
  for (size_t i = 0; i < names.size(); i++) vals[i] = c->GetParameter(names[i]);
  int P = names.size(); VD which = {0, 1, 2, 9, 10, (double)P - 1}; auto index = [&](const char *l) { int i = which[choose(6, l)]; if (i >= P) prune(); return i; };
  for (int s = 0; s < 2; s++) {
    switch (choose(4, "op")) {
      case 0: { MC_OP(title << " set all"); ParameterDict d; for (int i = 0; i < P; i++) d[names[i]] = vals[i] = 1 + 0.03125 * ((i * 7 + s) % P); c->SetParameters(d); break; }
      case 1: { int i = index("which"); MC_OP(title << " set " << names[i]); c->SetParameter(names[i], vals[i] = 1.75 + 0.125 * s); break; }
      case 2: { int i = index("which"); std::string w = num("z", s); MC_OP(title << " rename " << names[i]); c->RenameParameter(names[i], w); names[i] = w; break; }
      case 3: { int i = index("missing"); if (kind >= 4) prune(); MC_OP(title << " set without " << names[i]); ParameterDict d; for (int j = 0; j < P; j++) if (j != i) d[names[j]] = vals[j]; MC_CHECK(throws([&] { c->SetParameters(d); }), "many: incomplete set accepted", title << " " << names[i]); break; }
    }
    if (!fresh()) continue;
    ParameterDict d; std::set<std::string> n; for (int i = 0; i < P; i++) { d[names[i]] = vals[i]; n.insert(names[i]); }
    MC_CHECK(c->GetParameterNames() == n && (int)c->GetParameterCount() == P && c->GetParameters() == d, "many: names and values", title << " " << P << " got " << mstr(c->GetParameters()) << " expected " << mstr(d));
    for (int i = 0; i < P; i++) MC_CHECK(c->GetParameter(names[i]) == vals[i], "many: value read", title << " " << names[i]);
    VD g = got(), w = want(vals); MC_CHECK(vclose(g, w, 1e-9, 1e-9), "many: computed value", title << " " << P << " got " << vstr(g) << " expected " << vstr(w)); state(Hash().s(title).md(d).h);
  }
}
