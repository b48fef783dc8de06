// C23 limits are computed from the right bins
#include "mc.h"
#include <BayesIntervalCalc.h>
#include <Histogram.h>
#include <Exceptions.h>
#include <cmath>
#include <limits>
#include <iostream>
using namespace mc;
typedef std::vector<double> VD;
static struct Quiet { Quiet() { std::cout.setstate(std::ios::failbit); } } quiet;
static Histogram hist(const VD &edges, const VD &w) { AxisCollection a; a.AddAxis(BinAxis("x", VD(edges.begin(), edges.end() - 1), VD(edges.begin() + 1, edges.end()))); Histogram h(a); for (size_t i = 0; i < w.size(); i++) h.SetBinContent(i, w[i]); return h; }
// the range of points at which the cumulative fraction is cl, up to rounding
static void range(const VD &e, const VD &w, double cl, double &lo, double &hi) {
  double tot = 0, cum = 0; for (double x : w) tot += x; const double eps = 1e-10; lo = e.back(); hi = e.front(); 
  for (size_t i = 0; i < w.size(); i++) {
    double a = cum / tot, b = (cum + w[i]) / tot; cum += w[i];
    auto take = [&](double x) { lo = std::min(lo, x); hi = std::max(hi, x); };
    if (std::fabs(a - cl) < eps) take(e[i]); if (std::fabs(b - cl) < eps) take(e[i + 1]); if (a < cl && cl < b) take(e[i] + (e[i + 1] - e[i]) * (cl - a) / (b - a)); } }
static bool refused(std::function<double()> f, std::string *why) { std::string out; int r = isolated([&]() -> std::string { try { return MC_STR("gives " << f()); } catch (const ValueError &) { return "refused"; } catch (const DimensionError &) { return "refused"; } catch (...) { return "some other exception"; } }, &out, 3); *why = r == 2 ? "crashes" : r == 3 ? "hangs" : out; return r == 0 && out == "refused"; }

static const VD &values() { static const VD q = {0, 1, 2, 0.5, 1e-7}, t = {0, 1, 2, 0.5, 1e-7, 1e9, 3}; return thorough() ? t : q; }
MC_SCENARIO_SPLIT(posterior, 2) {
  int n = 1 + choose(tier(5, 5), "bins"); bool any = false; VD w; for (int i = 0; i < n; i++) { w.push_back(pick(values(), "content")); any |= w.back() != 0; } int scheme = choose(3, "edges"); VD e(1, scheme == 0 ? 0. : scheme == 1 ? -2.5 : 0.1); for (int i = 0; i < n; i++) e.push_back(e.back() + (scheme == 0 ? 1 : scheme == 1 ? 0.25 + i % 3 : 0.3 / (i + 1))); Histogram h = hist(e, w); MC_OP("contents " << vstr(w) << " edges " << vstr(e));
  if (!any) { std::string why; MC_CHECK(refused([&] { return BayesIntervalCalc::UpperBound(h, 0.9); }, &why), "empty histogram not refused", why); return; }
  static const VD fixed = {0.01, 0.1, 0.25, 1. / 3, 0.5, 2. / 3, 0.68, 0.9, 0.95, 0.999, 1e-9}; VD cls = fixed; double tot = 0, cum = 0; for (double x : w) tot += x; for (double x : w) { cum += x; if (cum) { cls.push_back(cum / tot); cls.push_back(std::min(1., cum / tot * 1.0001)); cls.push_back(cum / tot * 0.9999); } } cls.push_back(1); std::sort(cls.begin(), cls.end()); double last = e[0];
  for (double cl : cls) {
    if (cl <= 0 || cl > 1) continue; double g = std::nan(""); try { g = BayesIntervalCalc::UpperBound(h, cl); } catch (const std::exception &x) { MC_CHECK(false, "limit refused", "cl " << cl << " " << x.what()); }
    double lo, hi; range(e, w, cl, lo, hi); double tol = 1e-8 * (e.back() - e.front()) + 1e-9 * (1 / std::max(1e-12, 1.)); MC_CHECK(g >= lo - tol && g <= hi + tol, "limit", "at " << cl << " is " << g << " expected " << lo << (lo == hi ? "" : MC_STR(" to " << hi)));
    MC_CHECK(g >= e.front() && g <= e.back() + tol, "limit beyond the histogram", g); MC_CHECK(g >= last - tol, "limit falls as the confidence level rises", "at " << cl << " " << g << " after " << last); last = g; }
  MC_CHECK(h.GetBinContents() == w, "the histogram is changed", ""); Histogram s = h; s.Scale(1024); for (double cl : {0.3, 0.9}) MC_CHECK(close(BayesIntervalCalc::UpperBound(s, cl), BayesIntervalCalc::UpperBound(h, cl)), "limit depends on the scale of the contents", cl); state(Hash().vd(w).vd(e).h); }
MC_SCENARIO(large_posterior) {   // rounding over many bins
  int n = pick(std::vector<int>{10, 100, 1000, 4097}, "bins"), kind = choose(3, "contents"); VD w, e(1, -1); for (int i = 0; i < n; i++) { w.push_back(kind == 0 ? 0.1 : kind == 1 ? std::exp(-0.5 * std::pow((i - n / 2.) / (n / 9.), 2)) : (i % 7 == 3 ? 0 : 1. / 3)); e.push_back(e.back() + 0.01); } Histogram h = hist(e, w);
  VD cls = {0.05, 0.1, 0.5, 0.9, 0.99, 1}; double tot = 0, cum = 0; for (double x : w) tot += x; for (int i = 0; i < n; i++) { cum += w[i]; if (i % 97 == 5 || i > n - 4) cls.push_back(std::min(1., cum / tot)); }
  for (double cl : cls) { double g = -9; try { g = BayesIntervalCalc::UpperBound(h, cl); } catch (const std::exception &x) { MC_CHECK(false, "limit refused", "cl " << cl << " " << x.what()); } size_t b = 0; double c = 0; double q = std::min(g, e.back()); while (b < w.size() && e[b + 1] <= q) c += w[b++]; if (b < w.size()) c += w[b] * (q - e[b]) / (e[b + 1] - e[b]); MC_CHECK(std::fabs(c / tot - cl) < 1e-9 && g <= e.back() + 1e-9, "limit", "at " << cl << " is " << g << " where the fraction is " << c / tot); } state(Hash().b(n).b(kind).h); }
MC_SCENARIO(refusals) {
  Histogram h = hist({0, 1, 2.5}, {1, 3}); static const double bad[] = {0, -0.0, -1e-9, -0.5, 1.0001, 1.5, 90, std::nan(""), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()}; int k = choose(13, "case"); std::string why; MC_OP("case " << k);
  if (k < 10) { MC_CHECK(refused([&] { return BayesIntervalCalc::UpperBound(h, bad[k]); }, &why), "confidence level not refused", bad[k] << " " << why); MC_CHECK(refused([&] { return BayesIntervalCalc::UpperBound(1, 2, bad[k], 0.01); }, &why), "confidence level not refused for counts", bad[k] << " " << why); }
  else if (k == 10) { AxisCollection a; a.AddAxis(BinAxis("x", 0, 1, 2)); a.AddAxis(BinAxis("y", 0, 1, 2)); Histogram d(a); d.SetBinContent(0, 1); MC_CHECK(refused([&] { return BayesIntervalCalc::UpperBound(d, 0.9); }, &why), "histogram of two dimensions not refused", why); }
  else if (k == 11) { MC_CHECK(refused([&] { return BayesIntervalCalc::UpperBound(Histogram(), 0.9); }, &why), "empty histogram not refused", why); }
  else for (double t : {0., -0.1, std::nan("")}) MC_CHECK(refused([&] { return BayesIntervalCalc::UpperBound(1, 2, 0.9, t); }, &why), "tolerance not refused", t << " " << why); state(k); }
// the Poisson probability of n or fewer counts with mean m, as a multiple of exp(-base)
static double atMost(int n, double m, double base) { double s = 0; for (int k = 0; k <= n; k++) s += std::exp(k * (m > 0 ? std::log(m) : (k ? -1e300 : 0)) - std::lgamma(k + 1.) - (m - base)); return s; }
static double fraction(double b, int n, double s) { return 1 - atMost(n, b + s, b) / atMost(n, b, b); }
MC_SCENARIO(counting) {
  double b = pick(VD{0, 0.5, 1, 3.7, 10, 40, 100, 300}, "expected"); int n = pick(std::vector<int>{0, 1, 2, 5, 12, 60}, "observed"); MC_OP(b << " expected " << n << " observed"); double last = -1;
  for (double s : {0., 0.01, 0.5, 1., 2.3, 5., 20., 80.}) { double g = std::nan(""); try { g = BayesIntervalCalc::OneSidedUpperInterval(b, n, s); } catch (const std::exception &x) { MC_CHECK(false, "interval refused", x.what()); } double w = fraction(b, n, s); MC_CHECK(std::fabs(g - w) < 1e-7, "probability content of an interval", "up to " << s << " is " << g << " expected " << w); MC_CHECK(g >= last - 1e-9, "probability content falls with the size of the interval", ""); last = g; }
  double prev = 0; for (double cl : {0.05, 0.5, 0.9, 0.95}) for (double tol : {0.01, 0.001}) { double g = BayesIntervalCalc::UpperBound(b, n, cl, tol), w = fraction(b, n, g); MC_CHECK(std::fabs(w - cl) <= tol + 1e-7, "limit on counts", "at " << cl << " is " << g << " where the content is " << w); MC_CHECK(fraction(b, n, g - tol) < cl, "limit on counts is beyond where its level is reached", g); MC_CHECK(g >= prev - 0.02, "limit on counts falls as the confidence level rises", ""); prev = g; } state(Hash().d(b).b(n).h); }
MC_SCENARIO(counting_refusals) { int k = choose(6, "case"); std::string why; static const struct { double b; int n; double s; } c[] = {{-1, 2, 1}, {1, -1, 1}, {1, -3, 1}, {1, 2, -0.5}, {std::nan(""), 2, 1}, {5000, 0, 1}}; bool r = refused([&] { return BayesIntervalCalc::OneSidedUpperInterval(c[k].b, c[k].n, c[k].s); }, &why); if (k == 5 && why != "refused") { std::istringstream i(why); std::string g; double x = -1; i >> g >> x; r = std::fabs(x - fraction(5000, 0, 1)) < 1e-6; } MC_CHECK(r, "counts that make no sense not refused", k << " " << why); if (k != 3) MC_CHECK(refused([&] { return BayesIntervalCalc::UpperBound(c[k].b, c[k].n, 0.9, 0.01); }, &why) || k == 5, "counts that make no sense not refused by the limit", k << " " << why); state(k); }
