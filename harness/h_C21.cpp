// C21 copies and clones are independent values that outlive one another
// Every object of a small pool has its own history (how it was made and what was then done to it); copying takes the source's history over.
// The reference for each object is another one that is made and changed by that history alone, with no copying.
#include "mc.h"
#include <BinnedED.h>
#include <AnalyticED.h>
#include <CompositeED.h>
#include <SpectralFitDist.h>
#include <Gaussian.h>
#include <JumpPDF.h>
#include <VaryingCDF.h>
#include <SquareRootScale.h>
#include <BoolCut.h>
#include <BoxCut.h>
#include <LineCut.h>
#include <CutCollection.h>
#include <CutLog.h>
#include <Convolution.h>
#include <Scale.h>
#include <Shift.h>
#include <ScaleFunction.h>
#include <Shape.h>
#include <EventConvolution.h>
#include <EventScale.h>
#include <EventShift.h>
#include <FitResult.h>
#include <OXSXDataSet.h>
#include <LazyOXSXDataSet.h>
#include <IO.h>
#include <Event.h>
#include <EDManager.h>
#include <BinnedEDManager.h>
#include <BinnedEDShrinker.h>
#include <SystematicManager.h>
#include <BinnedNLLH.h>
#include <ConstraintManager.h>
#include <Histogram.h>
#include <DenseMatrix.h>
#include <SparseMatrix.h>
#include <TRandom3.h>
#include <memory>
#include <iostream>
using namespace mc;
typedef std::vector<double> VD;
typedef std::vector<std::string> VN;
static struct Quiet { Quiet() { std::cout.setstate(std::ios::failbit); } } quiet;

template <class T> struct Spec {
  std::string title;
  std::vector<std::function<T *()>> make;
  std::vector<std::pair<std::string, std::function<void(T &)>>> mut;
  std::function<void(T &, std::ostream &)> look;
  std::function<void *(const T &)> clone;      // a T, or null if the clone is something else
  bool assign = true; int depth = 0;
};
template <class T, class S> static std::string look(const Spec<S> &s, T &t) { std::ostringstream o; o.precision(17); s.look(t, o); return o.str(); }
// a value or the fact that there is none
template <class F> static std::string att(F f) { std::ostringstream o; o.precision(17); try { o << f(); } catch (const Fail &) { throw; } catch (const Pruned &) { throw; } catch (const std::exception &) { o << "none"; } o << ";"; return o.str(); }
#define SHOW(X) o << att([&] { return X; })

// (changes may be refused)
template <class T> static void change(const Spec<T> &s, T &t, int m) { try { s.mut[m].second(t); } catch (const std::exception &) {} }
typedef std::vector<int> History;                                          // first: how made, then the changes
template <class T> static const std::string &reference(const Spec<T> &s, const History &h, std::map<History, std::string> &memo) {
  auto it = memo.find(h); if (it != memo.end()) return it->second;
  std::unique_ptr<T> t(s.make[h[0]]()); for (size_t i = 1; i < h.size(); i++) change(s, *t, h[i]);
  return memo[h] = look(s, *t);
}
template <class T, bool A> struct Assign { static void go(T &a, const T &b) { a = b; } };
template <class T> struct Assign<T, false> { static void go(T &, const T &) {} };
template <class T, bool CanAssign = true> static void pool(const Spec<T> &s) {
  static std::map<std::string, std::map<History, std::string>> memos; auto &memo = memos[s.title]; const int N = 3;
  std::unique_ptr<T> slot[N]; History hist[N];
  auto same = [&](int i) { const std::string &want = reference(s, hist[i], memo); std::string got = look(s, *slot[i]); MC_CHECK(got == want, s.title + ": not the value its history gave it", "object " << i << " is " << got << " expected " << want); };
  for (int i = 0; i < 2; i++) { slot[i].reset(s.make[i % s.make.size()]()); hist[i] = History(1, i % s.make.size()); }
  int M = s.mut.size(), n = s.depth ? s.depth : tier(4, 5);
  for (int k = 0; k < n; k++) {
    bool last = k + 1 == n; std::vector<std::function<void()>> ops; std::vector<std::string> names;
    auto add = [&](const std::string &nm, std::function<void()> f) { names.push_back(nm); ops.push_back(f); };
    add("look at all", [&] { for (int i = 0; i < N; i++) if (slot[i]) same(i); });
    if (!last || true) {
      int empty = -1; for (int i = N - 1; i >= 0; i--) if (!slot[i]) empty = i;
      for (int i = 0; i < N; i++) if (slot[i]) {
        if (!last) add(MC_STR("destroy " << i), [&, i] { slot[i].reset(); });
        for (int m = 0; m < M; m++) add(MC_STR("change " << i << " " << s.mut[m].first), [&, i, m] { change(s, *slot[i], m); hist[i].push_back(m); });
        if (CanAssign) for (int j = 0; j < N; j++) if (slot[j]) add(MC_STR("assign " << j << " to " << i), [&, i, j] { Assign<T, CanAssign>::go(*slot[i], *slot[j]); hist[i] = hist[j]; });
        if (empty >= 0) {
          add(MC_STR("copy " << i << " to " << empty), [&, i, empty] { slot[empty].reset(new T(*slot[i])); hist[empty] = hist[i]; });
          if (s.clone) add(MC_STR("clone " << i << " to " << empty), [&, i, empty] { T *c = static_cast<T *>(s.clone(*slot[i])); MC_CHECK(c, s.title + ": the clone is something else", ""); slot[empty].reset(c); hist[empty] = hist[i]; });
        }
      }
    }
    int c = choose((int)ops.size(), "op"); MC_OP(names[c]); ops[c]();
  }
  for (int i = 0; i < N; i++) if (slot[i]) same(i);
  Hash h; h.s(s.title); for (int i = 0; i < N; i++) { h.b(slot[i] ? 1 : 0); if (slot[i]) for (int x : hist[i]) h.b(x + 1); } state(h.h);
}
#define CLONE(T, B) [](const T &t) -> void * { B *b = t.Clone(); T *r = dynamic_cast<T *>(b); if (!r || typeid(*b) != typeid(T)) { delete b; return nullptr; } return r; }

static AxisCollection ax(int n = 2) { AxisCollection a; a.AddAxis(BinAxis("x", 0, n, n)); return a; }
static BinnedED dist(const std::string &n, double p, double q) { BinnedED d(n, ax()); d.SetObservables(VN{"x"}); d.SetBinContent(0, p); d.SetBinContent(1, q); return d; }
static const VN &xy() { static const VN n = {"x", "y"}; return n; }
static Event ev(double x = 1.25, double y = 0.5) { Event e(VD{x, y}); e.SetObservableNames(&xy()); return e; }
template <class T> static void params(T &t, std::ostream &o) { SHOW(mstr(t.GetParameters())); SHOW(t.GetParameterCount()); SHOW(vstr(t.GetParameterNames())); }
static std::string plain(std::string n) { while (n.size() > 5 && n.substr(n.size() - 5) == "_copy") n.resize(n.size() - 5); return n; }   // copies of gaussians say that they are
static void lookBinned(const BinnedED &t, std::ostream &o) { o << t.GetName(); SHOW(vstr(t.GetBinContents())); SHOW(vstr(t.GetObservables())); SHOW(t.Probability(ev())); SHOW(t.Integral()); SHOW(t.GetNBins()); SHOW(vstr(t.GetAxes().GetAxisNames())); SHOW(t.GetAxes().GetAxis(0).GetMaximum()); }

MC_SCENARIO_SPLIT(distributions, 3) {
  switch (choose(7, "class")) {
    case 0: { Spec<BinnedED> s; s.title = "binned distribution"; s.make = {[] { return new BinnedED(dist("a", 1, 2)); }, [] { return new BinnedED("b", ax(3)); }}; s.mut = {{"fill", [](BinnedED &t) { t.Fill(1.5, 0.25); }}, {"name, observables", [](BinnedED &t) { t.SetName(t.GetName() + "n"); t.SetObservables(VN{"y"}); }}, {"normalise", [](BinnedED &t) { t.Normalise(); }}};
      s.look = lookBinned; s.clone = CLONE(BinnedED, EventDistribution); pool(s); break; }
    case 1: { Spec<AnalyticED> s; s.title = "analytic distribution"; s.make = {[] { Gaussian g(1, 2); auto *a = new AnalyticED("a", &g); a->SetObservables(VN{"x"}); return a; }, [] { Gaussian g(VD{0, 1}, VD{1, 3}); return new AnalyticED("b", &g); }}; s.mut = {{"parameter", [](AnalyticED &t) { t.SetParameter(*t.GetParameterNames().begin(), 0.75); }}, {"rename", [](AnalyticED &t) { std::string f = *t.GetParameterNames().rbegin(); t.RenameParameter(f, "z" + f); }}, {"name, observables", [](AnalyticED &t) { t.SetName(t.GetName() + "n"); t.SetObservables(VN{"y", "x"}); }}};
      s.look = [](AnalyticED &t, std::ostream &o) { o << t.GetName(); params(t, o); SHOW(t.Probability(ev())); SHOW(t.Integral()); SHOW(t.GetNDims()); SHOW(vstr(t.GetObservables().GetNames())); }; s.clone = CLONE(AnalyticED, EventDistribution); pool(s); break; }
    case 2: case 3: { static bool nested; nested = choose(2, "nested"); Spec<CompositeED> s; s.title = nested ? "nested composite distribution" : "composite distribution"; s.make = {[] { BinnedED a = dist("a", 1, 2), b = dist("b", 3, 5); b.SetObservables(VN{"y"}); Gaussian g(1, 2); AnalyticED c("c", &g); c.SetObservables(VN{"x"}); if (nested) { CompositeED p(&a, &b); return new CompositeED(&p, &c); } return new CompositeED(&a, &b); }, [] { Gaussian g(1, 2); AnalyticED c("c", &g), d("d", &g); c.SetObservables(VN{"x"}); d.SetObservables(VN{"y"}); return new CompositeED(c * d); }}; s.mut = {{"name", [](CompositeED &t) { t.SetName(t.GetName() + "n"); }}, {"normalise", [](CompositeED &t) { t.Normalise(); }}};
      s.look = [](CompositeED &t, std::ostream &o) { o << t.GetName(); SHOW(t.Probability(ev())); SHOW(t.Integral()); SHOW(t.GetNDims()); }; s.clone = CLONE(CompositeED, EventDistribution); pool(s); break; }
    case 4: { Spec<SpectralFitDist> s; s.title = "spectral distribution"; s.make = {[] { auto *d = new SpectralFitDist("s", ax()); d->SetObservables(VN{"x"}); return d; }, [] { auto *d = new SpectralFitDist("t", ax(3)); d->SetBinContents(VD{3, 1, 2}); return d; }}; s.mut = {{"parameter", [](SpectralFitDist &t) { t.SetParameter(*t.GetParameterNames().rbegin(), 0.75); }}, {"rename", [](SpectralFitDist &t) { std::string f = *t.GetParameterNames().rbegin(); t.RenameParameter(f, "z" + f); }}, {"name", [](SpectralFitDist &t) { t.SetName(t.GetName() + "n"); }}};
      s.look = [](SpectralFitDist &t, std::ostream &o) { o << t.GetName(); lookBinned(t, o); params(t, o); }; s.clone = CLONE(SpectralFitDist, EventDistribution); pool(s); break; }
    case 5: { Spec<EDManager> s; s.title = "distribution manager"; s.make = {[] { auto *m = new EDManager; BinnedED a = dist("a", 1, 2), b = dist("b", 3, 5); m->AddDist(&a); m->AddDist(&b); m->SetNormalisations(VD{2, 3}); return m; }, [] { return new EDManager; }}; s.mut = {{"add", [](EDManager &t) { BinnedED c = dist(MC_STR("c" << t.GetNDists()), 1, 9); t.AddDist(&c); }}, {"parameter", [](EDManager &t) { if (t.GetNDists()) t.SetParameter(*t.GetParameterNames().begin(), 7 + t.GetParameter(*t.GetParameterNames().begin())); }}, {"rename", [](EDManager &t) { if (t.GetNDists()) { std::string f = *t.GetParameterNames().rbegin(); t.RenameParameter(f, "z" + f); } }}};
      s.look = [](EDManager &t, std::ostream &o) { o << t.GetName(); params(t, o); SHOW(vstr(t.GetNormalisations())); SHOW(t.Probability(ev())); SHOW(t.GetNDists()); SHOW(t.GetNDims()); }; pool(s); break; }
    case 6: { Spec<BinnedEDManager> s; s.title = "binned manager"; s.make = {[] { auto *m = new BinnedEDManager; m->AddPdf(dist("a", 1, 2), DIRECT); m->AddPdf(dist("b", 3, 5), INDIRECT); m->SetNormalisations(VD{2, 3}); return m; }, [] { return new BinnedEDManager; }}; s.mut = {{"add", [](BinnedEDManager &t) { t.AddPdf(dist(MC_STR("c" << t.GetNPdfs()), 1, 9), t.GetNPdfs() % 2 ? FALSE : DIRECT); }}, {"parameter, rename", [](BinnedEDManager &t) { if (t.GetParameterCount()) { std::string f = *t.GetParameterNames().begin(); t.SetParameter(f, 7 + t.GetParameter(f)); t.RenameParameter(f, "z" + f); } }}, {"shrink", [](BinnedEDManager &t) { BinnedEDShrinker k; k.SetUsingOverflows(false); k.SetBuffer("x", 1, 0); k.SetBinMap(dist("m", 1, 1)); t.ApplySystematics(SystematicManager()); t.ApplyShrink(k); t.ReassertNorms(); }}};
      s.look = [](BinnedEDManager &t, std::ostream &o) { o << t.GetName(); SHOW(t.BinProbability(0)); params(t, o); SHOW(vstr(t.GetNormalisations())); SHOW(t.Probability(ev())); SHOW(t.GetNPdfs()); SHOW(t.GetNDims()); SHOW(t.BinProbability(0)); for (unsigned i = 0; i < t.GetNPdfs(); i++) SHOW(vstr(t.GetOriginalPdf(i).GetBinContents())); }; pool(s); break; }
  }
}
MC_SCENARIO_SPLIT(functions, 3) {
  switch (choose(4, "class")) {
    case 0: { Spec<Gaussian> s; s.title = "gaussian"; s.make = {[] { return new Gaussian(1, 2, "g"); }, [] { return new Gaussian(VD{0, 1}, VD{1, 3}, "h"); }}; s.mut = {{"parameter", [](Gaussian &t) { t.SetParameter(*t.GetParameterNames().begin(), 0.75); }}, {"rename", [](Gaussian &t) { std::string f = *t.GetParameterNames().rbegin(); t.RenameParameter(f, "z" + f); }}, {"cut off, width", [](Gaussian &t) { t.SetCdfCutOff(0.5); t.SetStDev(0, 0.25); }}};
      s.look = [](Gaussian &t, std::ostream &o) { o << plain(t.GetName()); params(t, o); SHOW(t(VD(t.GetNDims(), 0.5))); SHOW(t.Cdf(0, 1.25)); SHOW(t.GetCdfCutOff()); SHOW(vstr(t.GetMeans())); SHOW(vstr(t.GetStdDevs())); SHOW(t.GetNDims()); }; s.clone = CLONE(Gaussian, Function); pool(s); break; }
    case 1: { Spec<JumpPDF> s; s.title = "jump pdf"; s.make = {[] { Gaussian g(1, 2); return new JumpPDF("j", &g); }, [] { return new JumpPDF("k"); }}; s.mut = {{"parameter", [](JumpPDF &t) { try { t.SetParameter(*t.GetParameterNames().begin(), 0.75); } catch (const std::exception &) {} }}, {"rename", [](JumpPDF &t) { try { std::string f = *t.GetParameterNames().rbegin(); t.RenameParameter(f, "z" + f); } catch (const std::exception &) {} }}, {"name", [](JumpPDF &t) { t.SetName(t.GetName() + "n"); }}};
      s.look = [](JumpPDF &t, std::ostream &o) { o << t.GetName(); params(t, o); SHOW(t.ConditionalProbability(VD{1}, VD{0.25})); SHOW(t.Integral(VD{0}, VD{1}, VD{0.25})); }; s.clone = CLONE(JumpPDF, ConditionalPDF); pool(s); break; }
    case 2: { Spec<VaryingCDF> s; s.title = "varying cdf"; s.make = {[] { Gaussian g(0, 1); auto *c = new VaryingCDF("c"); c->SetKernel(&g); SquareRootScale f("f"); f.SetGradient(0.5); c->SetDependance("stddevs_0", &f); return c; }, [] { return new VaryingCDF("d"); }}; s.mut = {{"parameter", [](VaryingCDF &t) { for (auto &p : t.GetParameters()) t.SetParameter(p.first, 0.75 + p.second); }}, {"dependence", [](VaryingCDF &t) { SquareRootScale f("f"); f.RenameParameter("grad", "q"); t.SetDependance("means_0", &f); }}, {"kernel", [](VaryingCDF &t) { Gaussian g(3, 4); t.SetKernel(&g); }}};
      s.look = [](VaryingCDF &t, std::ostream &o) { o << t.GetName(); params(t, o); SHOW(t.ConditionalProbability(VD{1}, VD{2.25})); SHOW(t.Integral(VD{0}, VD{1}, VD{4})); }; s.clone = CLONE(VaryingCDF, ConditionalPDF); pool(s); break; }
    case 3: { Spec<SquareRootScale> s; s.title = "square root"; s.make = {[] { return new SquareRootScale("a"); }}; s.mut = {{"parameter", [](SquareRootScale &t) { t.SetGradient(t.GetGradient() + 1); }}, {"rename", [](SquareRootScale &t) { std::string f = *t.GetParameterNames().rbegin(); t.RenameParameter(f, "z" + f); }}, {"name", [](SquareRootScale &t) { t.SetName(t.GetName() + "n"); }}};
      s.look = [](SquareRootScale &t, std::ostream &o) { o << t.GetName(); params(t, o); SHOW(t(VD{2})); }; s.clone = CLONE(SquareRootScale, Function); pool(s); break; }
  }
}
MC_SCENARIO_SPLIT(cuts, 3) {
  auto passes = [](const Cut &t, std::ostream &o) { o << t.GetName(); for (double x : {0., 1., 2., 3.}) SHOW(t.PassesCut(ev(x))); };
  switch (choose(5, "class")) {
    case 0: { Spec<BoolCut> s; s.title = "bool cut"; s.make = {[] { return new BoolCut("a", "x", 1); }, [] { return new BoolCut("b", "y", 0.5); }}; s.look = passes; s.clone = CLONE(BoolCut, Cut); pool(s); break; }
    case 1: { Spec<BoxCut> s; s.title = "box cut"; s.make = {[] { return new BoxCut("a", "x", 0.5, 1.5); }, [] { return new BoxCut("b", "y", 0, 1); }}; s.mut = {{"lower", [](BoxCut &t) { t.SetLowerLimit(1); }}, {"upper", [](BoxCut &t) { t.SetUpperLimit(2); }}}; s.look = passes; s.clone = CLONE(BoxCut, Cut); pool(s); break; }
    case 2: { Spec<LineCut> s; s.title = "line cut"; s.make = {[] { return new LineCut("a", "x", 0.5, "upper"); }, [] { return new LineCut("b", "x", 0.75, "lower"); }}; s.mut = {{"value", [](LineCut &t) { t.SetCutValue(1.5); }}, {"side", [](LineCut &t) { t.SetSidedness(t.GetSidedness() == "upper" ? "lower" : "upper"); }}}; s.look = passes; s.clone = CLONE(LineCut, Cut); pool(s); break; }
    case 3: { Spec<CutCollection> s; s.title = "cut collection"; s.make = {[] { auto *c = new CutCollection; c->AddCut(LineCut("a", "x", 2.5, "upper")); return c; }, [] { return new CutCollection; }}; s.mut = {{"add", [](CutCollection &t) { t.AddCut(BoxCut("b", "x", 0.5, 3.5)); }}, {"add another", [](CutCollection &t) { t.AddCut(BoolCut("c", "x", 1)); }}};
      s.look = [](CutCollection &t, std::ostream &o) { o << vstr(t.GetCutNames()); CutLog l(t.GetCutNames()); for (double x : {0., 1., 2., 3.}) { SHOW(t.PassesCuts(ev(x))); SHOW(t.PassesCuts(ev(x), l)); } l.CalculateMeta(); for (int c : l.GetCutCounts()) o << c << ","; }; pool(s); break; }
    case 4: { Spec<CutLog> s; s.title = "cut log"; s.make = {[] { return new CutLog(VN{"a", "b"}); }, [] { return new CutLog; }}; s.mut = {{"pass", [](CutLog &t) { t.LogPass(); }}, {"cut", [](CutLog &t) { if (t.GetCutNames().size()) t.LogCut(t.GetCutNames().size() - 1); }}};
      s.look = [](CutLog &t, std::ostream &o) { CutLog c(t); c.CalculateMeta(); for (int x : c.GetCutCounts()) o << x << ","; o << vstr(c.GetCutPercentages()) << c.AsString() << vstr(t.GetCutNames()); }; pool(s); break; }
  }
}
template <class T> static void lookSys(T &t, std::ostream &o) { o << t.GetName(); params(t, o); SHOW(vstr(t.GetTransformationObs().GetNames())); SHOW(vstr(t.GetDistributionObs().GetNames())); double n; SHOW(vstr(t(dist("d", 1, 2), &n).GetBinContents())); }
template <class T> static T *ready(T *t, bool c) { t->SetTransformationObs(VN{"x"}); t->SetDistributionObs(VN{"x"}); t->SetAxes(ax()); if (c) t->Construct(); return t; }
template <class T> static void mutSys(Spec<T> &s, double v) { s.mut = {{"parameter", [v](T &t) { for (auto &p : t.GetParameters()) t.SetParameter(p.first, p.second + v); }}, {"construct", [](T &t) { try { t.Construct(); } catch (const std::exception &) {} }}, {"name, rename", [](T &t) { t.SetName(t.GetName() + "n"); if (t.GetParameterCount()) { std::string f = *t.GetParameterNames().rbegin(); t.RenameParameter(f, "z" + f); } }}}; s.look = lookSys<T>; }
MC_SCENARIO_SPLIT(systematics, 3) {
  switch (choose(7, "class")) {
    case 0: { Spec<Scale> s; s.title = "scale"; mutSys(s, 0.25); s.make = {[] { return ready(new Scale("s"), true); }, [] { return new Scale("t"); }}; pool(s); break; }
    case 1: { Spec<Shift> s; s.title = "shift"; mutSys(s, 0.25); s.make = {[] { return ready(new Shift("s"), true); }, [] { return new Shift("t"); }}; pool(s); break; }
    case 2: { Spec<ScaleFunction> s; s.title = "scale function"; mutSys(s, 0.25); s.mut.back().second = [](ScaleFunction &t) { t.SetName(t.GetName() + "n"); }; s.make = {[] { auto *f = new ScaleFunction("s"); f->SetScaleFunction([](const ParameterDict &p, const double &x) { return (1 + p.at("a")) * x; }, VN{"a"}); return ready(f, true); }, [] { return new ScaleFunction("t"); }}; s.look = lookSys<ScaleFunction>; pool(s); break; }
    case 3: { Spec<Shape> s; s.title = "shape"; mutSys(s, 0.25); s.mut.back().second = [](Shape &t) { t.SetName(t.GetName() + "n"); }; s.make = {[] { auto *f = new Shape("s"); f->SetShapeFunction([](const ParameterDict &p, const VD &x) { return (1 + p.at("a")) * x[0]; }, VN{"a"}); return ready(f, true); }, [] { return new Shape("t"); }}; pool(s); break; }
    case 4: { Spec<Convolution> s; s.title = "convolution"; mutSys(s, 0.25); s.mut[0].second = s.mut[2].second = nullptr; s.mut[0].second = [](Convolution &t) { try { t.SetParameter(*t.GetParameterNames().begin(), 0.75); } catch (const std::exception &) {} }; s.mut[2] = {"kernel", [](Convolution &t) { t.SetName(t.GetName() + "n"); Gaussian g(0.5, 2); t.SetFunction(&g); }}; s.make = {[] { auto *f = new Convolution("s"); Gaussian g(0, 1); f->SetFunction(&g); return ready(f, true); }, [] { return ready(new Convolution("t"), false); }}; pool(s); break; }
    case 5: { Spec<EventConvolution> s; s.title = "event convolution"; RandHooks::gaus() = [](double m, double w) { return m + 0.5 * w; }; s.make = {[] { auto *f = new EventConvolution("s"); Gaussian g(0, 1); f->SetPDF(&g); f->SetInObservables(VN{"y"}); f->SetOutObservables(VN{"x"}); return f; }, [] { return new EventConvolution("t"); }};
      s.mut = {{"parameter", [](EventConvolution &t) { try { t.SetParameter(*t.GetParameterNames().begin(), 0.75); } catch (const std::exception &) {} }}, {"kernel", [](EventConvolution &t) { Gaussian g(0.5, 2); t.SetPDF(&g); }}, {"name, observables", [](EventConvolution &t) { t.SetName(t.GetName() + "n"); t.SetInObservables(VN{"x"}); t.SetOutObservables(VN{"y"}); }}};
      s.look = [](EventConvolution &t, std::ostream &o) { o << t.GetName(); params(t, o); SHOW(vstr(t.GetInObservables())); SHOW(vstr(t.GetOutObservables())); SHOW(vstr(t(ev()).GetData())); }; pool(s); break; }
    case 6: { Spec<BinnedEDShrinker> s; s.title = "shrinker"; s.make = {[] { auto *k = new BinnedEDShrinker; k->SetBuffer("x", 1, 0); return k; }, [] { return new BinnedEDShrinker; }}; s.mut = {{"buffer", [](BinnedEDShrinker &t) { t.SetBuffer("x", 0, 1); }}, {"map", [](BinnedEDShrinker &t) { BinnedED d("d", ax(3)); d.SetObservables(VN{"x"}); t.SetBinMap(d); }}, {"overflow", [](BinnedEDShrinker &t) { t.SetUsingOverflows(!t.GetUsingOverflows()); }}};
      s.look = [](BinnedEDShrinker &t, std::ostream &o) { for (auto &b : t.GetBuffers()) o << b.first << b.second.first << b.second.second; o << t.GetUsingOverflows(); BinnedEDShrinker c(t); BinnedED d("d", ax(3)); d.SetObservables(VN{"x"}); d.SetBinContents(VD{1, 2, 4}); c.SetBinMap(d); SHOW(vstr(c.ShrinkDist(d).GetBinContents())); }; pool(s); break; }
  }
}
static Histogram hist(int n, double w) { Histogram h(ax(n)); for (int i = 0; i < n; i++) h.SetBinContent(i, w * (i + 1)); return h; }
MC_SCENARIO_SPLIT(results, 3) {
  switch (choose(5, "class")) {
    case 0: { Spec<FitResult> s; s.title = "fit result"; s.make = {[] { auto *r = new FitResult; ParameterDict p; p["a"] = 1; p["b"] = 2; r->SetBestFit(p); r->SetStatSpace(hist(2, 1)); return r; }, [] { return new FitResult; }};
      s.mut = {{"best fit", [](FitResult &t) { ParameterDict p; p["c"] = 0.25; t.SetBestFit(p); t.SetExtremeVal(3); t.SetValid(false); t.SetPrintPrecision(3); }}, {"statistic space", [](FitResult &t) { t.SetStatSpace(hist(3, 2)); }}, {"projections, covariance", [](FitResult &t) { HistMap m; m["a"] = hist(2, 5); t.Set1DProjections(m); m["b"] = hist(3, 5); t.Set2DProjections(m); DenseMatrix c(1, 1); c.SetComponent(0, 0, 4); t.SetCovarianceMatrix(c); t.SetStatSample({{1, 2}, {3}}); }}};
      s.look = [](FitResult &t, std::ostream &o) { SHOW(mstr(t.GetBestFit())); SHOW(vstr(t.GetStatSpace().GetBinContents())); for (auto &v : t.GetStatSample()) SHOW(vstr(v)); for (auto &p : t.Get1DProjections()) o << p.first << vstr(p.second.GetBinContents()); for (auto &p : t.Get2DProjections()) o << p.first << vstr(p.second.GetBinContents()); SHOW(t.GetExtremeVal()); SHOW(t.GetCovarianceMatrix().GetComponent(0, 0)); SHOW(t.GetValid()); SHOW(t.GetPrintPrecision()); SHOW(t.AsString().find("c") != std::string::npos); }; pool(s); break; }
    case 1: { Spec<Histogram> s; s.title = "histogram"; s.make = {[] { return new Histogram(hist(2, 1)); }, [] { return new Histogram; }}; s.mut = {{"scale", [](Histogram &t) { t.Scale(2); }}, {"axes", [](Histogram &t) { t.SetAxes(ax(3)); }}, {"fill", [](Histogram &t) { if (t.GetNDims()) t.Fill(1.5, 3); }}};
      s.look = [](Histogram &t, std::ostream &o) { SHOW(vstr(t.GetBinContents())); SHOW(t.GetNBins()); SHOW(t.GetNDims()); SHOW(t.Integral()); SHOW(vstr(t.GetAxes().GetAxisNames())); }; pool(s); break; }
    case 2: { Spec<ConstraintManager> s; s.title = "constraint manager"; s.make = {[] { auto *c = new ConstraintManager; c->SetConstraint("a", 1, 0.5); c->SetConstraint("a", "b", 1, 0.25); return c; }, [] { return new ConstraintManager; }}; s.mut = {{"single", [](ConstraintManager &t) { t.SetConstraint("b", 2, 0.5, 0.25); }}, {"shape", [](ConstraintManager &t) { Histogram h = hist(3, 1); t.SetConstraint("x", h); }}, {"analytic shape", [](ConstraintManager &t) { ParameterDict p; p["a"] = 0; t.SetConstraint(p, [](const ParameterDict &q) { return q.at("a"); }, 1, 2); }}};
      s.look = [](ConstraintManager &t, std::ostream &o) { for (double a : {0.5, 1.5}) for (double b : {0.5, 3.}) { ParameterDict p; p["a"] = a; p["b"] = b; p["x"] = a + 0.25; SHOW(t.Evaluate(p)); } }; pool(s); break; }
    case 3: { Spec<DenseMatrix> s; s.title = "dense matrix"; s.make = {[] { auto *m = new DenseMatrix(2, 2); m->SetComponent(0, 1, 3); return m; }, [] { return new DenseMatrix; }}; s.mut = {{"identity", [](DenseMatrix &t) { t.SetToIdentity(); }}, {"component", [](DenseMatrix &t) { try { t.SetComponent(1, 0, 2 + t.GetComponent(1, 0)); } catch (const std::exception &) {} }}, {"square", [](DenseMatrix &t) { t *= t; }}};
      s.look = [](DenseMatrix &t, std::ostream &o) { SHOW(vstr(t(VD{1}))); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) SHOW(t.GetComponent(i, j)); SHOW(vstr(t(VD{1, 2}))); }; pool(s); break; }
    case 4: { Spec<SparseMatrix> s; s.title = "sparse matrix"; s.make = {[] { auto *m = new SparseMatrix(2, 2); m->SetComponent(0, 1, 3); return m; }, [] { return new SparseMatrix; }}; s.mut = {{"identity", [](SparseMatrix &t) { t.SetToIdentity(); }}, {"component", [](SparseMatrix &t) { if (t.GetNRows()) t.SetComponent(1, 0, 2 + t.GetComponent(1, 0)); }}, {"square", [](SparseMatrix &t) { t *= t; }}};
      s.look = [](SparseMatrix &t, std::ostream &o) { o << t.GetNRows() << t.GetNCols(); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) SHOW(t.GetComponent(i, j)); SHOW(vstr(t(VD{1, 2}))); }; pool(s); break; }
  }
}
MC_SCENARIO_SPLIT(data, 3) {
  auto lookData = [](const DataSet &t, std::ostream &o) { SHOW(t.GetNEntries()); SHOW(t.GetNObservables()); SHOW(vstr(t.GetObservableNames())); for (unsigned i = 0; i < t.GetNEntries() + 1; i++) { SHOW(vstr(t.GetEntry(i).GetData())); SHOW(t.GetEntry(i).GetDatum("x")); SHOW(t.GetEntry(i).GetDatum("z")); SHOW(vstr(t.GetEntry(i).GetObservableNames())); } };
  static std::vector<std::string> files; static std::map<std::string, int> lives; 
  switch (choose(4, "class")) {
    case 0: { Spec<OXSXDataSet> s; s.title = "data set"; s.make = {[] { auto *d = new OXSXDataSet; d->SetObservableNames(VN{"x", "y"}); d->AddEntry(Event(VD{1, 2})); return d; }, [] { return new OXSXDataSet; }}; s.mut = {{"add", [](OXSXDataSet &t) { double n = t.GetNEntries(); t.AddEntry(t.GetNObservables() == 1 ? Event(VD{n}) : Event(VD{3 + n, 4})); }}, {"names", [](OXSXDataSet &t) { t.SetObservableNames(VN{"z", "x"}); }}, {"sum", [](OXSXDataSet &t) { OXSXDataSet u(t); t = t + u; }}};
      s.look = lookData; pool(s); break; }
    case 1: { if (files.empty()) for (int i = 0; i < 2; i++) { OXSXDataSet d; d.SetObservableNames(i ? VN{"z"} : VN{"x", "y"}); for (int e = 0; e < 2 + i; e++) d.AddEntry(Event(i ? VD{10. + e} : VD{1. + e, 2})); files.push_back(scratch() + MC_STR("/lazy" << i << ".h5")); IO::SaveDataSet(d, files.back()); }
      Spec<LazyOXSXDataSet> s; s.title = "lazy data set"; s.depth = tier(3, 4); s.make = {[] { return new LazyOXSXDataSet(files[0]); }, [] { return new LazyOXSXDataSet(files[1]); }}; s.mut = {{"load", [](LazyOXSXDataSet &t) { t.GetNEntries(); }}, {"close", [](LazyOXSXDataSet &t) { t.Close(); }}}; s.look = lookData; pool(s); break; }
    case 2: { Spec<Event> s; s.title = "event"; s.make = {[] { return new Event(ev()); }, [] { return new Event(VD{7}); }}; s.mut = {{"datum", [](Event &t) { t.SetDatum(0, t.GetDatum(0) + 1); }}, {"names", [](Event &t) { static const VN n = {"z", "x"}; t.SetObservableNames(&n); }}, {"datum by name", [](Event &t) { try { t.SetDatum("x", 9); } catch (const std::exception &) {} }}};
      s.look = [](Event &t, std::ostream &o) { SHOW(vstr(t.GetData())); SHOW(t.GetNObservables()); SHOW(vstr(t.GetObservableNames())); SHOW(t.GetDatum("x")); SHOW(t.GetDatum("z")); }; pool(s); break; }
    case 3: { Spec<BinnedNLLH> s; s.title = "binned likelihood"; s.make = {[] { auto *l = new BinnedNLLH; l->AddPdf(dist("a", 0.25, 0.75)); l->AddPdf(dist("b", 0.5, 0.5), DIRECT); l->SetDataDist(dist("data", 3, 5)); l->SetConstraint("a", 4, 1); l->RegisterFitComponents(); return l; }, [] { auto *l = new BinnedNLLH; l->AddPdf(dist("a", 1, 0.)); l->AddPdf(dist("c", 0.5, 0.5)); l->SetDataDist(dist("data", 1, 1)); l->RegisterFitComponents(); return l; }};
      s.mut = {{"parameters", [](BinnedNLLH &t) { ParameterDict p; for (auto &n : t.GetParameterNames()) p[n] = 3 + t.GetParameters()[n]; t.SetParameters(p); }}, {"evaluate", [](BinnedNLLH &t) { try { t.Evaluate(); } catch (const std::exception &) {} }}, {"constraint, data", [](BinnedNLLH &t) { t.SetConstraint("a", 2, 0.5); t.SetDataDist(dist("data", 2, 7)); }}};
      s.look = [](BinnedNLLH &t, std::ostream &o) { SHOW(mstr(t.GetParameters())); SHOW(t.Evaluate()); SHOW(vstr(t.GetDataDist().GetBinContents())); SHOW(vstr(t.GetNormalisations())); }; pool(s); break; }
  }
}
