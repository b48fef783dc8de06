// C08 event systematics
#include "mc.h"
#include <EventScale.h>
#include <EventShift.h>
#include <EventReconvolution.h>
#include <EventConvolution.h>
#include <EventSystematicManager.h>
#include <Gaussian.h>
#include <Event.h>
#include <TRandom3.h>
#include <memory>
using namespace mc;
typedef std::vector<double> VD;
typedef std::vector<std::string> VN;
static const VN OBS = {"e", "t", "r"};
static double gArgMean, gArgSigma, gDraw;

// one systematic: kind 0 scale, 1 shift, 2 reconvolution, 3 smearing
struct M { int kind; int in, out; double v, mean; std::string par; };
static double ref(const M &m, const VD &v) {
  switch (m.kind) { case 0: return v[m.out] * m.v; case 1: return v[m.out] + m.v; case 2: return v[m.in] + m.v * (v[m.out] - v[m.in]); }
  return v[m.out] + m.mean + gDraw * m.v;
}
static EventSystematic *mk(const M &m) {
  EventSystematic *p = 0;
  if (m.kind == 0) p = new EventScale("scale");
  if (m.kind == 1) p = new EventShift("shift");
  if (m.kind == 2) p = new EventReconvolution("recon");
  if (m.kind == 3) { Gaussian g(m.mean, m.v, "g"); EventConvolution *c = new EventConvolution("conv"); c->SetPDF(&g); p = c; }
  p->SetInObservables(VN{OBS[m.in]}); p->SetOutObservables(VN{OBS[m.out]});
  return p;
}
static void setDirect(EventSystematic *p, const M &m, double v) {
  if (m.kind == 0) ((EventScale *)p)->SetScale(v);
  else if (m.kind == 1) ((EventShift *)p)->SetShift(v);
  else if (m.kind == 2) ((EventReconvolution *)p)->SetCorrection(v);
  else p->SetParameter(m.par, v);
}
static const std::vector<VD> &events() { static const std::vector<VD> e = {{1, 2, 3}, {-0.5, 0.25, 8}}; return e; }
static void hook() { RandHooks::gaus() = [](double mean, double sigma) { gArgMean = mean; gArgSigma = sigma; return mean + gDraw * sigma; }; }

MC_SCENARIO(histories) {
  hook(); gDraw = 0.5;
  std::vector<M> pool = {{0, 0, 0, 1, 0, "scale"}, {1, 2, 2, 0, 0, "shift"}, {1, 0, 0, 0, 0, "shift"}, {2, 1, 0, 1, 0, "correction"}, {3, 2, 2, 2, 0.5, "stddevs_0"}};
  std::vector<std::unique_ptr<EventSystematic>> sys; for (auto &m : pool) sys.emplace_back(mk(m));
  EventSystematicManager man; std::vector<int> order;
  int depth = tier(4, 5); int n = pool.size();
  static const VD vals = {2, 0.25};
  for (int s = 0; s < depth; s++) {
    int o = choose(n + n + 4 + 1 + 1, "op");
    if (o < n) { MC_OP("add " << o); if (order.size() == 3) prune(); man.Add(sys[o].get()); order.push_back(o); }
    else if (o < 2 * n) {
      int k = o - n; M &m = pool[k]; int how = choose(3, "how"); double v = m.v == vals[0] ? vals[1] : vals[0]; MC_OP("set " << k << " to " << v << " way " << how);
      if (how == 0) setDirect(sys[k].get(), m, v);
      if (how == 1) sys[k]->SetParameter(m.par, v);
      if (how == 2) { ParameterDict d = sys[k]->GetParameters(); d[m.par] = v; d["someone else's"] = 17; sys[k]->SetParameters(d); }
      m.v = v;
    } else if (o < 2 * n + 4) {
      static const int who[4] = {0, 1, 3, 4}; int k = who[o - 2 * n]; MC_OP("rename parameter of " << k);
      std::string nn = pool[k].par + "'"; sys[k]->RenameParameter(pool[k].par, nn); pool[k].par = nn;
    } else if (o == 2 * n + 4) { op("clear the manager"); if (order.empty()) prune(); man.Clear(); order.clear(); }
    else { op("change the observable of 1"); pool[1].out = (pool[1].out + 1) % 3; sys[1]->SetOutObservables(VN{OBS[pool[1].out]}); }
    if (!fresh()) continue;
    MC_CHECK(man.GetNSystematics() == order.size() && man.GetSystematics().size() == order.size(), "manager: number of systematics", "");
    for (auto &v0 : events()) {
      Event e(v0); e.SetObservableNames(&OBS);
      for (int k = 0; k < n; k++) {
        VD want = v0; want[pool[k].out] = ref(pool[k], v0);
        Event g = (*sys[k])(e);
        MC_CHECK(vclose(g.GetData(), want), "systematic: result", "systematic " << k << " on " << vstr(v0) << " gave " << vstr(g.GetData()) << " expected " << vstr(want));
        MC_CHECK(e.GetData() == v0, "systematic: changed its input", "systematic " << k);
        for (int i = 0; i < 3; i++) MC_CHECK(g.GetDatum(OBS[i]) == g.GetData()[i], "systematic: observables lost their names", "");
        MC_CHECK(close(sys[k]->GetParameter(pool[k].par), pool[k].v), "systematic: parameter", "systematic " << k);
        if (pool[k].kind < 3) MC_CHECK((pool[k].kind == 0 ? ((EventScale *)sys[k].get())->GetScale() : pool[k].kind == 1 ? ((EventShift *)sys[k].get())->GetShift() : sys[k]->GetParameter(pool[k].par)) == sys[k]->GetParameter(pool[k].par), "systematic: value", "systematic " << k);
      }
      VD want = v0; for (int k : order) want[pool[k].out] = ref(pool[k], want);
      Event g = man.ApplySystematics(e);
      MC_CHECK(vclose(g.GetData(), want), "manager: result", "order " << vstr(VD(order.begin(), order.end())) << " on " << vstr(v0) << " gave " << vstr(g.GetData()) << " expected " << vstr(want));
      MC_CHECK(e.GetData() == v0, "manager: changed its input", "");
    }
    Hash h; h.vd(order); for (auto &m : pool) h.d(m.v).s(m.par).b(m.out); state(h.h);
  }
}

MC_SCENARIO(formulas) {
  hook();
  int kind = choose(4, "kind");
  int out = choose(3, "out"), in = choose(3, "in");
  static const VD params = {0.5, 1, 3, 1e-3, 1e4, -2, 0, std::nan("")};
  double v = pick(params, "value");
  if (kind == 1 && std::isnan(v)) prune(); bool bad = (kind == 0 && !(v > 0)) || (kind == 2 && !(v >= 0)) || (kind == 3 && !(v > 0));
  M m{kind, in, out, kind == 3 && bad ? 1 : v, 0.25, kind == 0 ? "scale" : kind == 1 ? "shift" : kind == 2 ? "correction" : "stddevs_0"};
  MC_OP("systematic " << kind << " in " << in << " out " << out << " value " << v);
  std::unique_ptr<EventSystematic> p(mk(m));
  double before = p->GetParameter(m.par);
  if (bad && kind != 3) {
    int how = choose(3, "how");
    MC_CHECK(throws([&] { if (how == 0) setDirect(p.get(), m, v); if (how == 1) p->SetParameter(m.par, v); if (how == 2) p->SetParameters({{m.par, v}}); }), "systematic: unphysical value accepted", "kind " << kind << " value " << v << " way " << how);
    MC_CHECK(p->GetParameter(m.par) == before, "systematic: refused value stored", "");
    return;
  }
  if (!bad) setDirect(p.get(), m, v);
  static const VD xs = {-3, 0, 0.5, 1e3}, draws = {-1, 0, 2.5};
  VD ev0 = {pick(xs, "x0"), pick(xs, "x1"), 4.5};
  gDraw = pick(draws, "draw");
  Event e(ev0); e.SetObservableNames(&OBS);
  VD want = ev0; want[out] = ref(m, ev0);
  Event g = (*p)(e);
  MC_CHECK(vclose(g.GetData(), want), "systematic: result", "kind " << kind << " value " << v << " on " << vstr(ev0) << " gave " << vstr(g.GetData()) << " expected " << vstr(want));
  MC_CHECK(e.GetData() == ev0, "systematic: changed its input", "");
  MC_CHECK(p->GetInObservables() == VN{OBS[in]} && p->GetOutObservables() == VN{OBS[out]}, "systematic: observables", "");
  EventSystematicManager man; MC_CHECK(man.ApplySystematics(e).GetData() == ev0, "manager: empty manager changed the event", "");
  state(Hash().b(kind).b(in).b(out).vd(want).h);
}

MC_SCENARIO_SPLIT(misconfigured, 1) {
  hook();
  int kind = choose(4, "kind"), what = choose(6, "what");
  M m{kind, 0, 1, 1, 0, kind == 0 ? "scale" : kind == 1 ? "shift" : kind == 2 ? "correction" : "stddevs_0"};
  std::unique_ptr<EventSystematic> p(mk(m));
  VD v = {1, 2, 3}; Event e(v); e.SetObservableNames(&OBS);
  MC_OP("kind " << kind << " misconfiguration " << what);
  switch (what) {
    case 0: p->SetOutObservables(VN{}); MC_CHECK(throws([&] { (*p)(e); }), "systematic: applied without an observable", "kind " << kind); break;
    case 1: p->SetOutObservables(VN{"missing"}); MC_CHECK(throws([&] { (*p)(e); }), "systematic: applied to an unknown observable", "kind " << kind); break;
    case 2: if (kind != 2) prune(); p->SetInObservables(VN{"missing"}); MC_CHECK(throws([&] { (*p)(e); }), "systematic: applied with an unknown observable", ""); p->SetInObservables(VN{}); MC_CHECK(throws([&] { (*p)(e); }), "systematic: applied without an observable", ""); break;
    case 3: MC_CHECK(throws([&] { p->SetParameter("nobody", 2); }) && throws([&] { p->GetParameter("nobody"); }) && throws([&] { p->RenameParameter("nobody", "x"); }), "systematic: unknown parameter accepted", "kind " << kind); if (kind != 3) MC_CHECK(throws([&] { p->SetParameters({{"nobody", 2}}); }), "systematic: incomplete parameters accepted", "kind " << kind); break;
    case 4: { if (kind != 3) prune(); Gaussian g2(2, "two"); MC_CHECK(throws([&] { ((EventConvolution *)p.get())->SetPDF(&g2); }), "systematic: two-dimensional smearing accepted", "");
      gDraw = 1; MC_CHECK(close((*p)(e).GetDatum(1), 3), "systematic: refused kernel stored", "");
      ((EventConvolution *)p.get())->SetPDF(0); MC_CHECK(throws([&] { (*p)(e); }), "systematic: smearing applied without a kernel", ""); break; }
    case 5: { if (kind != 3) prune(); gDraw = 1; Gaussian g(1, 3, "g"); EventConvolution a("a"), *b = new EventConvolution("b"); b->SetPDF(&g); b->SetOutObservables(VN{"t"}); a = *b; EventConvolution c(*b);
      b->SetParameter("means_0", 100); delete b;
      MC_CHECK(close(a(e).GetDatum(1), 6) && close(c(e).GetDatum(1), 6), "systematic: copy of a smearing", ""); MC_CHECK(a.GetName() == "b" && c.GetName() == "b", "systematic: name of a copy", ""); a = a; MC_CHECK(close(a(e).GetDatum(1), 6), "systematic: self-assigned smearing", ""); break; }
  }
  MC_CHECK(e.GetData() == v, "systematic: changed its input", "");
}

// long chains of systematics: applied in the order they were added, each to what the one before left
MC_SCENARIO(many) {
  hook(); int n = 1 + choose(tier(24, 60), "systematics"), pat = choose(4, "pattern"), change = choose(3, "change"); gDraw = 0.5;
  std::vector<M> ms; std::vector<std::unique_ptr<EventSystematic>> own; EventSystematicManager man;
  for (int i = 0; i < n; i++) { int kind = pat == 0 ? i % 2 : pat == 1 ? (i % 3 ? 1 : 0) : pat == 2 ? i % 4 : (i * i / 3) % 4; M m{kind, (i + 1) % 3, i % 3, kind == 1 ? 0.5 + i : kind == 0 ? 1 + 0.0625 * (i % 5) - 0.125 : kind == 2 ? 0.75 + 0.0625 * (i % 7) : 0.5 + i, kind == 3 ? 0.25 * i : 0., kind == 0 ? "scale" : kind == 1 ? "shift" : kind == 2 ? "correction" : "stddevs_0"}; ms.push_back(m); own.emplace_back(mk(m)); setDirect(own[i].get(), m, m.v); man.Add(own[i].get()); }
  MC_OP(n << " systematics, pattern " << pat << " change " << change);
  for (int rep = 0; rep < 2; rep++) {
    MC_CHECK(man.GetNSystematics() == (size_t)n, "many: number", man.GetNSystematics()); auto list = man.GetSystematics(); for (int i = 0; i < n; i++) MC_CHECK((const void *)list[i] == (const void *)own[i].get(), "many: order", i);
    for (auto &v0 : events()) { Event e(v0); e.SetObservableNames(&OBS); VD want = v0; for (auto &m : ms) want[m.out] = ref(m, want); Event g = man.ApplySystematics(e); MC_CHECK(vclose(g.GetData(), want), "many: result", n << " systematics gave " << vstr(g.GetData()) << " expected " << vstr(want)); MC_CHECK(e.GetData() == v0, "many: changed its input", ""); state(Hash().vd(want).h); }
    int k = change == 0 ? n - 1 : change == 1 ? 0 : n / 2; ms[k].v = ms[k].v * 1.5 + 0.25; setDirect(own[k].get(), ms[k], ms[k].v);
  }
}
