// C25 the Markov chain accepts by the Metropolis rule and records every step
#include "mc.h"
#include <MCMC.h>
#include <MCMCSamples.h>
#include <MetropolisSampler.h>
#include <AutoCorrelationCalc.h>
#include <TestStatistic.h>
#include <Exceptions.h>
#include <TRandom3.h>
#include <TTree.h>
#include <algorithm>
#include <cmath>
#include <limits>
#include <memory>
#include <iostream>
using namespace mc;
typedef std::vector<double> VD;
static struct Quiet { Quiet() { std::cout.setstate(std::ios::failbit); } } quiet;
static const double INF = std::numeric_limits<double>::infinity();

// log likelihoods; of names a-1, b, c
static double surface(int s, const ParameterDict &p) {
  double a = p.begin()->second, r = 0; for (auto &x : p) r += x.second * x.second;
  switch (s) { case 0: return -0.5 * r; case 1: return a >= 0.4 ? 0 : -0.9; case 2: return a > 0.9 ? -INF : a; case 3: return 1.5; default: return std::floor(2 * a) - 0.3 * (r - a * a); } }
struct Stat : public TestStatistic {
  int s = 0; bool logged = true, flipped = false; std::set<std::string> names; ParameterDict now; int evaluations = 0, registered = 0;
  double value(const ParameterDict &p) const { double v = surface(s, p); return logged ? v : std::exp(v); }
  double Evaluate() override { evaluations++; return flipped ? -value(now) : value(now); }
  void SetParameters(const ParameterDict &p) override { now = p; } ParameterDict GetParameters() const override { return now; }
  std::set<std::string> GetParameterNames() const override { return names; } size_t GetParameterCount() const override { return names.size(); } void RegisterFitComponents() override { registered++; } };
struct Step { ParameterDict from, to; double corr; VD u; };
// what the sampler is asked, and what it is given
struct Log : public MCSampler {
  MetropolisSampler m; std::vector<Step> steps; VD before; VD corrs = {0}; VD us, gs; double corr = 0;
  Log() { RandHooks::rndm() = [this] { double u = pick(us, "uniform"); (steps.empty() ? before : steps.back().u).push_back(u); return u; }; }
  ~Log() { RandHooks::rndm() = nullptr; RandHooks::gaus() = nullptr; }
  ParameterDict Draw(const ParameterDict &p) override {
    std::map<double, double> moved; RandHooks::gaus() = [&](double mean, double sigma) { double g = pick(gs, "gaus"); moved[sigma] = g; return mean + g * sigma; };
    ParameterDict to = m.Draw(p); ParameterDict want = p; for (auto &x : want) for (auto &s : sigmas()) if (s.first == x.first && !fixed.count(x.first)) { MC_CHECK(moved.count(s.second), "proposal: parameter not moved", x.first); x.second += s.second * moved[s.second]; }
    MC_CHECK(mclose(to, want), "proposal", "from " << mstr(p) << " to " << mstr(to) << " expected " << mstr(want)); corr = pick(corrs, "correction"); steps.push_back({p, to, corr, {}}); return to; }
  double CorrectAccParam() override { return corr; }
  std::set<std::string> fixed; static const ParameterDict &sigmas() { static const ParameterDict s = {{"a-1", 1}, {"b", 0.5}, {"c", 0.25}}; return s; } };
static int binOf(const BinAxis &a, double v) { int b = 0, n = a.GetNBins(); while (b + 1 < n && v >= a.GetBinHighEdge(b)) b++; return b; }
struct Settings { bool logged = true, flip = false, full = false, chain = false, axes = false, trial = true; unsigned burn = 0, thin = 1, iter = 3; };
static AxisCollection axesFor(const ParameterDict &lo) { AxisCollection a; for (auto i = lo.rbegin(); i != lo.rend(); ++i) { VD e = {-2, -0.6, 0.1, 0.7, 3}; a.AddAxis(BinAxis(i->first, VD(e.begin(), e.end() - 1), VD(e.begin() + 1, e.end()))); } return a; }
static void checkHist(const Histogram &h, const std::vector<std::string> &axes, const std::vector<ParameterDict> &pts, const std::string &what) {
  MC_CHECK(h.GetNDims() == axes.size(), what + ": dimensions", ""); VD w(h.GetNBins(), 0); for (auto &n : axes) MC_CHECK(h.GetAxes().GetAxisIndex(n) < axes.size(), what + ": axes", "");
  for (auto &p : pts) { std::vector<size_t> u(axes.size()); for (auto &n : axes) { size_t i = h.GetAxes().GetAxisIndex(n); u[i] = binOf(h.GetAxes().GetAxis(i), p.at(n)); } w[h.FlattenIndices(u)]++; } MC_CHECK(vclose(h.GetBinContents(), w), what + ": contents", vstr(h.GetBinContents()) << " expected " << vstr(w)); }
// runs the chain and compares everything with the walk the rule gives
static void run(MCMC &mc, Log &log, Stat &stat, const Settings &s, const ParameterDict &lo, const ParameterDict &hi, const ParameterDict &trial) {
  stat.logged = s.logged; stat.flipped = s.flip; mc.SetTestStatLogged(s.logged); mc.SetFlipSign(s.flip); mc.SetSaveFullHistogram(s.full); mc.SetSaveChain(s.chain); mc.SetBurnIn(s.burn); mc.SetThinFactor(s.thin); mc.SetMaxIter(s.iter); mc.SetMinima(lo); mc.SetMaxima(hi); mc.SetInitialTrial(trial); mc.SetHistogramAxes(s.axes ? axesFor(lo) : AxisCollection()); log.steps.clear(); log.before.clear();
  MC_CHECK(mc.GetTestStatLogged() == s.logged && mc.GetFlipSign() == s.flip && mc.GetSaveFullHistogram() == s.full && mc.GetSaveChain() == s.chain && mc.GetBurnIn() == s.burn && mc.GetThinFactor() == s.thin && mc.GetMaxIter() == s.iter && mc.GetMinima() == lo && mc.GetMaxima() == hi && mc.GetInitialTrial() == trial, "settings not kept", "");
  const FitResult &r = mc.Optimise(&stat); MC_CHECK(log.steps.size() == s.iter, "number of steps", log.steps.size() << " expected " << s.iter); MC_CHECK(stat.registered > 0, "test statistic not set up", "");
  ParameterDict cur = trial; if (trial.empty() && s.iter) { cur = log.steps[0].from; MC_CHECK(log.before.size() == lo.size(), "random start: draws", ""); VD got, want; for (auto &x : cur) { MC_CHECK(lo.count(x.first), "random start: parameter", x.first); got.push_back((x.second - lo.at(x.first)) / (hi.at(x.first) - lo.at(x.first))); } want = log.before; std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); MC_CHECK(vclose(got, want) && cur.size() == lo.size(), "random start", mstr(cur)); }
  if (cur.empty()) return;
  double val = stat.value(cur), best = val; std::vector<ParameterDict> walk, visited(1, cur); VD vals; std::vector<bool> acc; size_t nAcc = 0;
  for (auto &st : log.steps) {
    MC_CHECK(st.from == cur, "chain is not where the rule puts it", "at " << mstr(st.from) << " expected " << mstr(cur) << " in step " << walk.size()); bool in = true; for (auto &x : st.to) in &= x.second >= lo.at(x.first) && x.second <= hi.at(x.first);
    bool accept = false; if (in) { double pv = stat.value(st.to); if (std::isinf(pv) && std::isinf(val)) prune(); if (!s.logged && pv == 0 && val == 0) prune(); double ratio = s.logged ? std::exp(pv - val + st.corr) : pv / val * std::exp(st.corr); if (ratio > 1) accept = true; else { MC_CHECK(!st.u.empty() || ratio == 1, "no random number for the decision", ratio); accept = ratio == 1 || st.u.back() <= ratio; } if (accept) { val = pv; cur = st.to; visited.push_back(cur); best = std::max(best, val); nAcc++; } }
    walk.push_back(cur); vals.push_back(val); acc.push_back(accept); }
  double sign = 1; ParameterDict bf = r.GetBestFit(); MC_CHECK(r.GetValid(), "result not valid", ""); MC_CHECK(std::count(visited.begin(), visited.end(), bf), "best fit is not a point of the chain", mstr(bf)); MC_CHECK(stat.value(bf) == best, "best fit is not the best point of the chain", mstr(bf) << " has " << stat.value(bf) << " expected " << best); MC_CHECK(r.GetExtremeVal() == sign * best, "extreme value", r.GetExtremeVal() << " expected " << best);
  const MCMCSamples &sm = mc.GetSamples(); if (s.iter) MC_CHECK(close(sm.GetAcceptanceRate(), double(nAcc) / s.iter) && close(sm.GetRejectionRate(), 1 - double(nAcc) / s.iter), "acceptance rate", sm.GetAcceptanceRate() << " expected " << nAcc << " of " << s.iter);
  std::vector<ParameterDict> kept; VD keptVals; for (size_t i = 0; i < walk.size(); i++) if (i > s.burn && i % s.thin == 0) { kept.push_back(walk[i]); keptVals.push_back(vals[i]); }
  if (s.iter) { std::vector<std::string> n; for (auto &x : lo) n.push_back(x.first);
    if (s.full) checkHist(sm.GetHistogram(), n, kept, "posterior histogram");
    else { MC_CHECK(sm.Get1DProjections().size() == n.size() && sm.Get2DProjections().size() == n.size() * (n.size() - 1) / 2, "number of projections", sm.Get1DProjections().size() << " and " << sm.Get2DProjections().size()); for (auto &x : n) { MC_CHECK(sm.Get1DProjections().count(x), "projection missing", x); checkHist(sm.Get1DProjections().at(x), {x}, kept, "projection"); } for (auto &h : sm.Get2DProjections()) { auto an = h.second.GetAxes().GetAxisNames(); MC_CHECK(an.size() == 2 && an[0] != an[1], "projection of two parameters", h.first); checkHist(h.second, an, kept, "projection of two parameters"); } std::set<std::set<std::string>> pairs; for (auto &h : sm.Get2DProjections()) { auto an = h.second.GetAxes().GetAxisNames(); pairs.insert(std::set<std::string>(an.begin(), an.end())); } MC_CHECK(pairs.size() == n.size() * (n.size() - 1) / 2, "pairs of parameters", ""); }
    if (!s.axes && !s.full) for (auto &x : n) { const BinAxis &a = sm.Get1DProjections().at(x).GetAxes().GetAxis(0); MC_CHECK(close(a.GetMinimum(), lo.at(x)) && a.GetMaximum() >= hi.at(x) - 1e-9 && a.GetNBins() >= 1, "default axis", ""); } }
  { bool fin = true; for (double v : keptVals) fin &= std::isfinite(v); VD d(keptVals.size(), 0), w = d, q;
    for (double v : keptVals) { q.push_back(v); double m = 0; for (double x : q) m += x / q.size(); for (size_t i = 0; i < q.size(); i++) { d[i] += (v - m) * (q[q.size() - 1 - i] - m); w[i] += (v - m) * (v - m); } }
    VD g = const_cast<MCMCSamples &>(sm).GetAutoCorrelations(); MC_CHECK(g.size() >= keptVals.size(), "autocorrelations of the chain: number", g.size());
    for (size_t i = 0; fin && i < g.size(); i++) if (i >= d.size()) MC_CHECK(std::isnan(g[i]), "autocorrelations of the chain: longer than the chain", "lag " << i << " " << g[i]); else if (w[i] > 1e-6) MC_CHECK(close(g[i], d[i] / w[i], 1e-6, 1e-8), "autocorrelations of the chain", "lag " << i << " " << g[i] << " expected " << d[i] / w[i]); }
  if (s.chain && s.iter) { TTree *t = sm.GetChain(); MC_CHECK(t && t->rows.size() == s.iter, "stored chain: length", (t ? t->rows.size() : 0)); for (size_t i = 0; i < s.iter; i++) { auto &row = t->rows[i]; MC_CHECK(row.at("Step") == i && (row.at("Accepted") != 0) == acc[i] && close(row.at("LogL"), vals[i]), "stored chain: step", "step " << i << " " << mstr(row) << " expected value " << vals[i] << (acc[i] ? " accepted" : " rejected")); for (auto &x : walk[i]) { std::string b = x.first == "a-1" ? "a_1" : x.first; MC_CHECK(row.count(b) && row.at(b) == x.second, "stored chain: parameter", "step " << i << " " << mstr(row) << " expected " << mstr(walk[i])); } } }
  Hash h; for (auto &w : walk) h.md(w); state(h.b(nAcc).d(best).h); }
static ParameterDict only(const ParameterDict &p, int n) { ParameterDict r; for (auto &x : p) { if (!n--) break; r.insert(x); } return r; }
static const ParameterDict &LO() { static const ParameterDict p = {{"a-1", -1.6}, {"b", -1}, {"c", -0.2}}; return p; }
static const ParameterDict &HI() { static const ParameterDict p = {{"a-1", 2.2}, {"b", 1.3}, {"c", 0.8}}; return p; }
static void setup(Stat &st, Log &log, int dims) { for (auto &x : only(LO(), dims)) st.names.insert(x.first); log.m.SetSigmas(only(Log::sigmas(), dims)); }

// one parameter, a surface and every way the numbers can fall
MC_SCENARIO_SPLIT(walks, 5) {
  Stat st; Log log; MCMC mc(log); Settings s; setup(st, log, 1); st.s = choose(5, "surface"); s.logged = flip("logged"); s.flip = flip("flip sign") ; log.gs = {-1.1, 0.35, 2.5}; log.us = {0.03, 0.55, 0.98}; s.iter = tier(4, 5); s.chain = true; s.burn = 0; MC_OP("surface " << st.s); run(mc, log, st, s, only(LO(), 1), only(HI(), 1), {{"a-1", 0.2}}); }
MC_SCENARIO_SPLIT(corrections, 4) {   // a sampler whose proposals need correcting
  Stat st; Log log; MCMC mc(log); Settings s; setup(st, log, 1); st.s = pick(std::vector<int>{0, 3, 4}, "surface"); s.logged = flip("logged"); s.flip = flip("flip sign"); log.corrs = {0, -1.2, 0.9}; log.gs = {-0.6, 0.7}; log.us = {0.1, 0.6}; s.iter = tier(4, 5); run(mc, log, st, s, only(LO(), 1), only(HI(), 1), {{"a-1", 0.2}}); }
MC_SCENARIO_SPLIT(several_parameters, 5) {
  int dims = 2 + choose(2, "dims"); Stat st; Log log; MCMC mc(log); Settings s; setup(st, log, dims); st.s = pick(std::vector<int>{0, 4}, "surface"); s.full = flip("full"); s.axes = flip("axes"); s.chain = flip("chain"); log.gs = {-0.9, 1.3}; log.us = {0.2, 0.9}; s.iter = dims == 2 ? tier(3, 4) : tier(2, 3); int fix = choose(dims + 1, "fixed"); if (fix < dims) { std::string n = std::next(LO().begin(), fix)->first; log.m.Fix(n); log.fixed.insert(n); } if (flip("released")) { log.m.Fix("b"); log.m.Release("b"); log.fixed.erase("b"); }
  ParameterDict trial = {{"a-1", 0.1}, {"b", -0.3}, {"c", 0.4}}; run(mc, log, st, s, only(LO(), dims), only(HI(), dims), only(trial, dims)); }
// which steps are kept
MC_SCENARIO_SPLIT(burn_in_and_thinning, 4) {
  Stat st; Log log; MCMC mc(log); Settings s; setup(st, log, 1); st.s = choose(2, "surface"); s.burn = choose(5, "burn in"); s.thin = 1 + choose(4, "thinning"); s.full = flip("full"); s.axes = flip("axes"); s.chain = flip("chain"); s.iter = tier(6, 8); log.gs = {-0.8, 0.9}; log.us = {0.5}; run(mc, log, st, s, only(LO(), 1), only(HI(), 1), {{"a-1", 0.2}}); }
MC_SCENARIO_SPLIT(random_start, 3) {
  int dims = 1 + choose(3, "dims"); Stat st; Log log; MCMC mc(log); Settings s; setup(st, log, dims); st.s = choose(2, "surface"); s.iter = 1 + choose(2, "steps"); log.gs = {-0.4, 0.7}; log.us = {0.001, 0.3, 0.999}; run(mc, log, st, s, only(LO(), dims), only(HI(), dims), {}); }
// one chain after another with the same object
MC_SCENARIO_SPLIT(runs, 4) {
  Stat st; Log log; MCMC mc(log); log.gs = {-0.6, 1.2}; log.us = {0.35}; int n = tier(2, 3);
  for (int k = 0; k < n; k++) { Settings s; int dims = 1 + choose(2, "dims"); st.names.clear(); setup(st, log, dims); st.s = choose(2, "surface") ? 4 : 0; s.full = flip("full"); s.chain = flip("chain"); s.flip = k == 1; bool random = flip("random start"); s.axes = k == 1; s.burn = k == 1 ? 1 : 0; s.iter = tier(2, 2); ParameterDict trial = {{"a-1", k ? 2.1 : -0.4}, {"b", 0.6}}; MC_OP("run with " << dims << " parameters" << (s.full ? " full" : "") << (s.chain ? " chain" : "") << (random ? " random" : "")); run(mc, log, st, s, only(LO(), dims), only(HI(), dims), random ? ParameterDict() : only(trial, dims)); } }
// a parameter that has no room to move
MC_SCENARIO(held_parameter) {
  Stat st; Log log; MCMC mc(log); Settings s; setup(st, log, 2); st.s = pick(std::vector<int>{0, 4}, "surface"); s.full = flip("full"); s.chain = flip("chain"); s.axes = flip("axes"); s.burn = choose(2, "burn in"); s.iter = tier(4, 5); log.gs = {-0.9, 0.6}; log.us = {0.2, 0.9}; std::string held = flip("first held") ? "a-1" : "b"; ParameterDict lo = only(LO(), 2), hi = only(HI(), 2), tr = {{"a-1", 0.2}, {"b", 0.1}}; lo[held] = hi[held] = tr[held]; bool fix = flip("fixed"); if (fix) { log.m.Fix(held); log.fixed.insert(held); } run(mc, log, st, s, lo, hi, tr); }
MC_SCENARIO(no_steps) { Stat st; Log log; MCMC mc(log); Settings s; setup(st, log, 2); s.iter = 0; s.chain = flip("chain"); st.s = choose(5, "surface"); run(mc, log, st, s, only(LO(), 2), only(HI(), 2), {{"a-1", 0.2}, {"b", 0.1}}); const FitResult &r = mc.Optimise(&st); MC_CHECK(r.GetBestFit() == (ParameterDict{{"a-1", 0.2}, {"b", 0.1}}), "best fit of no steps", ""); MC_CHECK(mc.GetSamples().GetChain() == nullptr, "chain without a step", ""); state(st.s); }
MC_SCENARIO(refusals) {
  Stat st; Log log; MCMC mc(log); setup(st, log, 2); log.gs = {0.1}; log.us = {0.5}; ParameterDict lo = only(LO(), 2), hi = only(HI(), 2), tr = {{"a-1", 0.2}, {"b", 0.1}}, other = {{"a-1", 0.2}, {"z", 0.1}}, fewer = only(LO(), 1), more = LO(); mc.SetMinima(lo); mc.SetMaxima(hi); mc.SetInitialTrial(tr); mc.SetMaxIter(3); mc.SetTestStatLogged(true); int which = choose(5, "which"); ParameterDict bad = pick(std::vector<ParameterDict>{fewer, more, other, {}}, "how"); bool random = which != 2 && flip("random start"); if (random) mc.SetInitialTrial({});
  bool fail = true; switch (which) { case 0: mc.SetMinima(bad); break; case 1: mc.SetMaxima(bad); break; case 2: mc.SetInitialTrial(bad); fail = !bad.empty(); break; case 3: log.m.SetSigmas(bad.size() == 3 ? Log::sigmas() : bad); fail = bad.size() != 3; break; case 4: { AxisCollection a = axesFor(bad); if (bad.empty()) a = AxisCollection(); fail = !bad.empty(); mc.SetHistogramAxes(a); mc.SetSaveFullHistogram(flip("full")); mc.SetBurnIn(0); break; } }
  MC_OP("setting " << which << " " << mstr(bad)); bool refused = throws([&] { mc.Optimise(&st); }); MC_CHECK(refused == fail, refused ? "settings refused" : "missing settings not refused", which << " " << mstr(bad)); if (which < 3 && fail) MC_CHECK(st.evaluations == 0, "missing settings noticed too late", "");
  mc.SetMinima(lo); mc.SetMaxima(hi); mc.SetInitialTrial(tr); log.m.SetSigmas(only(Log::sigmas(), 2)); mc.SetHistogramAxes(AxisCollection()); Settings s; s.iter = 2; run(mc, log, st, s, lo, hi, tr); std::string out; MC_CHECK(isolated([&]() -> std::string { mc.SetThinFactor(0); return ""; }) == 1, "thinning by nothing accepted", ""); state(which); }
MC_SCENARIO_SPLIT(autocorrelations, 3) {
  int len = 1 + choose(3, "length"), n = tier(5, 6); AutoCorrelationCalc a(len); VD d(len, 0), w(len, 0), q; bool cleared = false;
  for (int k = 0; k < n; k++) { int o = choose(k && !cleared ? 4 : 3, "op"); if (o == 3) { MC_OP("clear"); a.Clear(); q.clear(); d.assign(len, 0); w = d; cleared = true; continue; } double v = o == 0 ? 1 : o == 1 ? -2.5 : 0.25 * k; MC_OP("fill " << v); a.Fill(v); q.push_back(v); if ((int)q.size() > len) q.erase(q.begin()); double m = 0; for (double x : q) m += x / q.size(); for (size_t i = 0; i < q.size(); i++) { d[i] += (v - m) * (q[q.size() - 1 - i] - m); w[i] += (v - m) * (v - m); }
    if (!fresh()) continue; VD g = a.Get(); MC_CHECK((int)g.size() == len, "autocorrelations: number", g.size()); for (int i = 0; i < len; i++) if (w[i] > 1e-9) MC_CHECK(close(g[i], d[i] / w[i], 1e-7, 1e-9), "autocorrelation", "lag " << i << " " << g[i] << " expected " << d[i] / w[i]); MC_CHECK(close(a.Mean(), m, 1e-9, 1e-9), "mean", ""); double var = 0; for (double x : q) var += (x - m) * (x - m) / q.size(); MC_CHECK(close(a.Var(), var, 1e-9, 1e-9), "variance", a.Var() << " expected " << var); state(Hash().vd(d).vd(w).vd(q).h); } }
// hundreds of steps: the numbers fall in a fixed pattern, everything kept is compared
struct Pattern : public Log { int i = 0, kind = 0; ParameterDict Draw(const ParameterDict &p) override { static const VD G = {-1.1, 0.35, 0.8, -0.6, 1.3, 0.1, -0.2}, U = {0.03, 0.55, 0.98, 0.3, 0.77}; int k = i++; gs = {G[kind == 2 ? (k * k / 3) % 7 : k % 7]}; us = {kind == 1 ? (k % 50 < 40 ? 0.999 : 0.01) : U[(k + k / 11) % 5]}; return Log::Draw(p); } };
MC_SCENARIO_SPLIT(long_chains, 3) {
  static const std::vector<unsigned> its = {100, 257, 400, 1025}; int dims = 1 + choose(3, "dims"); Stat st; Pattern log; MCMC mc(log); Settings s; setup(st, log, dims); log.kind = choose(3, "pattern"); log.us = {0.4}; log.gs = {0.1}; st.s = pick(std::vector<int>{0, 1, 4}, "surface"); s.iter = its[choose(tier(3, 4), "steps")]; s.burn = pick(std::vector<unsigned>{0, 1, 99, 100}, "burn in"); s.thin = pick(std::vector<unsigned>{1, 3, 10, 99}, "thinning"); s.full = flip("full"); s.axes = flip("axes"); s.chain = s.thin == 3; s.logged = log.kind != 2; bool random = s.burn == 1; ParameterDict trial = {{"a-1", 0.1}, {"b", -0.3}, {"c", 0.4}};
  MC_OP(s.iter << " steps, burn in " << s.burn << " thinning " << s.thin); run(mc, log, st, s, only(LO(), dims), only(HI(), dims), random ? ParameterDict() : only(trial, dims)); }
