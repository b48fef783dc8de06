// C29 The Minuit optimiser hands over the problem it was given and reports the answer by name
#include "mc.h"
#include <DenseMatrix.h>
#include <Exceptions.h>
#include <FitResult.h>
#include <Minuit.h>
#include <Minuit2/MnApplication.h>
#include <ParameterDict.h>
#include <TestStatistic.h>
#include <algorithm>
#include <cmath>
#include <iostream>
#include <memory>
#include <set>
using namespace mc;
using namespace ROOT::Minuit2;
typedef std::vector<double> VD;
typedef std::vector<std::string> VN;
static struct Quiet { Quiet() { std::cout.setstate(std::ios::failbit); } } quiet;

// a statistic that tells its parameters apart, and refuses those that are not its own
struct Stat : TestStatistic {
  std::set<std::string> names; ParameterDict now; int calls = 0, registered = 0; explicit Stat(const VN &v) : names(v.begin(), v.end()) {}
  static inline double off = 3; static double value(const ParameterDict &p) { double r = off; int i = 1; for (auto &x : p) { r += i * x.second + x.second * x.second / (2 + i); i = i < 243 ? i * 3 : i + 7; } return r; }
  double Evaluate() override { calls++; return value(now); } size_t GetParameterCount() const override { return names.size(); } void SetParameters(const ParameterDict &p) override { std::set<std::string> k; for (auto &x : p) k.insert(x.first); MC_CHECK(k == names, "statistic given other parameters than its own", mstr(p)); now = p; } ParameterDict GetParameters() const override { return now; } std::set<std::string> GetParameterNames() const override { MC_CHECK(registered > 0, "names asked before the components are registered", ""); return names; } void RegisterFitComponents() override { registered++; } };
struct Hook { ~Hook() { MinuitHooks::minimise() = nullptr; } };
static const std::vector<VN> NAMES = {{"x"}, {"b", "a"}, {"z", "B", "a"}, {"p10", "p2", "p1", "p"}};
static const char *METHODS[] = {"Migrad", "Minimize", "Simplex"};
struct Setup { VN names; ParameterDict start, err, lo, hi; std::set<std::string> fixed; bool maximise = false; std::string method = "Migrad"; int strategy = 2; unsigned calls = 0; double tol = 0.1, up = 0.5, off = 3; };
static void apply(Minuit &m, const Setup &s) { m.SetInitialValues(s.start); m.SetInitialErrors(s.err); m.SetMinima(s.lo); m.SetMaxima(s.hi); for (auto &x : s.fixed) m.Fix(x); m.SetMaximising(s.maximise); m.SetMethod(s.method); m.SetStrategy(s.strategy); m.SetMaxCalls(s.calls); m.SetTolerance(s.tol); m.SetUpperContourEdge(s.up); }
static Setup plain(const VN &n) { Setup s; s.names = n; int i = 0; for (auto &x : n) { s.start[x] = 0.5 + i; s.err[x] = 0.1 * (i + 1); i++; } return s; }
// one fit: what Minuit must be asked, and what must come back
static void fit(Minuit &m, const Setup &s, bool valid, int covKind) {
  Stat t(s.names); Stat::off = s.off; Hook hook; VN order(t.names.begin(), t.names.end()); int n = order.size(), asked = 0; VD answer; ParameterDict best; for (int i = 0; i < n; i++) { double v = s.fixed.count(order[i]) ? s.start.at(order[i]) : 10 + 1.5 * i; answer.push_back(v); } int free = n - (int)s.fixed.size(); VD cov; if (covKind == 1) for (int r = 0; r < free; r++) for (int c = 0; c <= r; c++) cov.push_back(r == c ? 4 + r : 0.1 * (r + 1) + 0.01 * (c + 1)); double minimum = 0; VN minuitOrder;
  MinuitHooks::minimise() = [&](const MinuitRequest &q) -> MinuitReply {
    asked++; MC_CHECK(q.method == s.method, "method", q.method << " expected " << s.method); MC_CHECK((int)q.strategy == s.strategy && q.calls == s.calls && q.tolerance == s.tol, "strategy, calls or tolerance", q.strategy << " " << q.calls << " " << q.tolerance); MC_CHECK(q.fcn->Up() == s.up, "difference that defines an error", q.fcn->Up() << " expected " << s.up); MC_CHECK((int)q.values.size() == n && (int)q.errors.size() == n, "number of parameters", q.values.size());
    /* which position is which parameter: told by the function itself */
    std::vector<int> who(n, -1); for (int i = 0; i < n; i++) { VD p(n, 0.25); p[i] = 7 + i; double v = (*q.fcn)(p); ParameterDict d = t.now; MC_CHECK((int)d.size() == n, "parameters of the statistic", mstr(d)); for (int k = 0; k < n; k++) if (d[order[k]] == 7 + i) { MC_CHECK(who[i] < 0, "two parameters at one position", ""); who[i] = k; } MC_CHECK(who[i] >= 0, "value handed over changed", mstr(d)); MC_CHECK(close(v, (s.maximise ? -1 : 1) * Stat::value(d)), "function to minimise", v << " for " << Stat::value(d)); }
    MinuitReply r; r.valid = valid; for (int i = 0; i < n; i++) { const std::string &nm = order[who[i]]; MC_CHECK(q.values[i] == s.start.at(nm) && q.errors[i] == s.err.at(nm), "start of " + nm, q.values[i] << " +- " << q.errors[i]); MC_CHECK(!!q.limits.count(i) == !!s.lo.count(nm), "limits of " + nm, (q.limits.count(i) ? "given" : "missing")); if (s.lo.count(nm)) MC_CHECK(q.limits.at(i).first == s.lo.at(nm) && q.limits.at(i).second == s.hi.at(nm), "limits of " + nm, q.limits.at(i).first << " " << q.limits.at(i).second); MC_CHECK(!!q.fixed.count(i) == !!s.fixed.count(nm), "fixing of " + nm, q.fixed.count(i)); r.params.push_back(answer[who[i]]); best[nm] = answer[who[i]]; if (!s.fixed.count(nm)) minuitOrder.push_back(nm); }
    for (auto i : q.fixed) MC_CHECK((int)i < n, "fixed position", i); for (auto &l : q.limits) MC_CHECK((int)l.first < n, "limited position", l.first); minimum = r.fval = (*q.fcn)(r.params); (*q.fcn)(VD(n, 99)); r.covariance = cov; r.rows = cov.empty() ? 0 : free; return r; };
  const FitResult &f = m.Optimise(&t); MC_CHECK(asked == 1, "minimisations", asked); MC_CHECK(mclose(f.GetBestFit(), best, 0, 0), "best fit", mstr(f.GetBestFit()) << " expected " << mstr(best)); MC_CHECK(f.GetValid() == valid, "validity", valid); MC_CHECK(close(f.GetExtremeVal(), s.maximise ? -minimum : minimum) && close(f.GetExtremeVal(), Stat::value(best)), "extreme value", f.GetExtremeVal() << " expected " << Stat::value(best));
  DenseMatrix c = f.GetCovarianceMatrix(); int rows = cov.empty() ? 0 : free; MC_CHECK(rows == 0 || !throws([&] { c.GetComponent(rows - 1, rows - 1); }), "size of the covariance matrix", rows); MC_CHECK(throws([&] { c.GetComponent(rows, 0); }) && throws([&] { c.GetComponent(0, rows); }), "size of the covariance matrix", rows); for (int i = 0; i < rows; i++) for (int j = 0; j < rows; j++) { int a = std::max(i, j), b = std::min(i, j); MC_CHECK(c.GetComponent(i, j) == cov[b + a * (a + 1) / 2], "covariance", i << " " << j << ": " << c.GetComponent(i, j)); } FitResult again = m.GetFitResult(); MC_CHECK(again.GetBestFit() == f.GetBestFit() && again.GetExtremeVal() == f.GetExtremeVal() && again.GetValid() == valid, "result kept", ""); MC_CHECK(m.GetUpperContourEdge() == s.up && m.GetMethod() == s.method && m.GetStrategy() == s.strategy && m.GetMaxCalls() == s.calls && m.GetTolerance() == s.tol && m.GetMinima() == s.lo && m.GetMaxima() == s.hi && m.GetMaximising() == s.maximise, "settings after a fit", ""); }
static Setup chosen(const VN &n, bool all) {
  Setup s = plain(n); for (auto &x : n) { int l = choose(3, "limits"); if (l) { s.lo[x] = l == 1 ? -1 : 0.25; s.hi[x] = l == 1 ? 30 : 12.5; } if (flip("fixed")) s.fixed.insert(x); } s.maximise = flip("maximise"); s.off = flip("values below zero") ? -5000 : 3; if (all) { s.method = METHODS[choose(3, "method")]; s.strategy = choose(3, "strategy"); s.up = pick(VD{0.5, 1, 2.3}, "contour edge"); s.calls = flip("calls") ? 0 : 500; s.tol = flip("tolerance") ? 0.1 : 0.003; } return s; }
MC_SCENARIO_SPLIT(problems, 4) { VN n = NAMES[choose(tier(3, 4), "names")]; Setup s = chosen(n, n.size() < 3 || thorough()); bool valid = flip("valid"); int cov = choose(2, "covariance"); Minuit m; apply(m, s); MC_OP(mstr(s.start) << " limits " << mstr(s.lo) << " fixed " << s.fixed.size()); fit(m, s, valid, cov); state(Hash().md(s.start).md(s.lo).md(s.hi).d(s.fixed.size()).d(s.maximise).s(s.method).d(s.up).h); }
MC_SCENARIO(defaults) { Minuit m; Setup s = plain(NAMES[choose(4, "names")]); m.SetInitialValues(s.start); m.SetInitialErrors(s.err); MC_CHECK(m.GetMethod() == "Migrad" && m.GetUpperContourEdge() == 0.5 && !m.GetMaximising() && m.GetTolerance() == 0.1 && m.GetStrategy() == 2 && m.GetMaxCalls() == 0, "defaults", ""); fit(m, s, true, 1); state(s.names.size()); }
// one optimiser used again and again, for other statistics and with other settings, and copied
MC_SCENARIO_SPLIT(again, 5) {
  std::unique_ptr<Minuit> m(new Minuit), keep; Setup s = plain(NAMES[1]), kept; apply(*m, s); int depth = tier(4, 5); for (int step = 0; step < depth; step++) { int op = choose(12, "operation"); MC_OP("op " << op); switch (op) {
    case 0: { VN n = NAMES[choose(3, "names")]; Setup t = plain(n); for (auto &x : s.fixed) m->Release(x); t.maximise = s.maximise; t.method = s.method; t.up = s.up; t.strategy = s.strategy; t.calls = s.calls; t.tol = s.tol; s = t; apply(*m, s); break; }
    case 1: s.fixed.insert(s.names.back()); m->Fix(s.names.back()); break;
    case 2: if (s.fixed.empty()) prune(); m->Release(*s.fixed.begin()); s.fixed.erase(s.fixed.begin()); break;
    case 3: s.maximise = !s.maximise; m->SetMaximising(s.maximise); break;
    case 4: s.up = s.up == 0.5 ? 1.5 : 0.5; m->SetUpperContourEdge(s.up); break;
    case 5: s.method = s.method == "Migrad" ? "Simplex" : "Migrad"; m->SetMethod(s.method); break;
    case 6: s.lo = s.hi = {}; s.lo[s.names[0]] = -5; s.hi[s.names[0]] = 50; m->SetMinima(s.lo); m->SetMaxima(s.hi); break;
    case 7: if (s.lo.empty()) prune(); s.lo = s.hi = {}; m->SetMinima({}); m->SetMaxima({}); break;
    case 8: fit(*m, s, true, 1); break;
    case 9: fit(*m, s, false, 0); break;
    case 10: { keep.reset(new Minuit(*m)); kept = s; std::unique_ptr<Minuit> c(new Minuit); *c = *m; m = std::move(c); break; }
    case 11: if (!keep) prune(); fit(*keep, kept, true, 1); break; }
    state(Hash().vs(s.names).d(s.fixed.size()).d(s.maximise).d(s.up).s(s.method).md(s.lo).d(keep != nullptr).h); } 
  Hook hook; MinuitHooks::minimise() = [](const MinuitRequest &) -> MinuitReply { throw std::runtime_error("the fit fails"); }; Stat t(s.names); MC_CHECK(throws([&] { m->Optimise(&t); }), "failure hidden", ""); fit(*m, s, true, 1); if (keep) fit(*keep, kept, true, 0); }
MC_SCENARIO(refusals) {
  int k = choose(13, "case"); VN n = NAMES[2]; Setup s = plain(n); s.lo = {{"z", 0}, {"B", 0}, {"a", 0}}; s.hi = {{"z", 9}, {"B", 9}, {"a", 9}}; bool bad = true; VN statNames = n; switch (k) { case 0: s.err.erase("B"); break; case 1: s.start.erase("a"); break; case 2: s.start.erase("a"); s.err.erase("a"); break; case 3: s.start["q"] = s.err["q"] = 1; break; case 4: s.lo.erase("z"); break; case 5: s.hi.erase("z"); break; case 6: s.hi["z"] = 0; break; case 7: s.lo["B"] = 10; break; case 8: s.method = "Simulated"; break; case 9: s.fixed.insert("nobody"); break; case 10: s.start["Q"] = s.start["a"]; s.err["Q"] = 1; s.start.erase("a"); s.err.erase("a"); break; case 11: s.lo["a"] = NAN; break; case 12: bad = false; break; }
  std::string out; int x = isolated([&]() -> std::string { Minuit m; apply(m, s); Stat t(statNames); MinuitHooks::minimise() = [&](const MinuitRequest &q) { MinuitReply r; r.params = q.values; r.valid = true; r.fval = (*q.fcn)(q.values); r.rows = 0; return r; }; return mstr(m.Optimise(&t).GetBestFit()); }, &out, 5); MC_CHECK(x == (bad ? 1 : 0), bad ? "settings that make no sense not refused" : "refused", k << (x == 2 ? " crash " : " ") << out); state(k); }

// many parameters: alphabetical and numerical order differ
MC_SCENARIO_SPLIT(many, 2) {
  int n = pick(std::vector<int>{9, 12, 30, 101}, "parameters"); VN names; for (int i = 0; i < n; i++) names.push_back("p" + std::to_string(i)); Setup s = plain(names); int lim = choose(4, "limits"), fx = choose(4, "fixed"); for (int i = 0; i < n; i++) { if (lim == 1 || (lim == 2 && i % 3 == 0) || (lim == 3 && i == n - 2)) { s.lo[names[i]] = -1 - i; s.hi[names[i]] = 300 + i; } if ((fx == 1 && i % 2) || (fx == 2 && i > 0) || (fx == 3 && i == n - 1)) s.fixed.insert(names[i]); } s.maximise = flip("maximise"); Minuit m; apply(m, s); fit(m, s, true, 1); if (!s.fixed.empty()) { m.Release(*s.fixed.begin()); s.fixed.erase(s.fixed.begin()); fit(m, s, true, 1); } state(Hash().b(n).b(lim).b(fx).d(s.maximise).h); }
