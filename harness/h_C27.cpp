// C27 Hamiltonian trajectories reflect at walls and are reversible
#include "mc.h"
#include <set>
#include <string>
#include <ParameterDict.h>
#include <LeapFrog.h>
#include <Gradient.h>
#include <HMCEnergy.h>
#include <SigmoidBoundary.h>
#include <HamiltonianSampler.h>
#include <Exceptions.h>
#include <TRandom3.h>
#include <algorithm>
#include <cmath>
#include <iostream>
#include <memory>
using namespace mc;
typedef std::vector<double> VD;
static struct Quiet { Quiet() { std::cout.setstate(std::ios::failbit); } } quiet;

// potentials and their gradients
static double potential(int k, const ParameterDict &q) { double r = 0, s = 0; int i = 0; for (auto &x : q) { i++; r += i * x.second * x.second; s += x.second; } switch (k) { case 0: return 4; case 1: return 0.5 * r; case 2: return 0.25 * s * s + 0.3 * r; case 3: return 2 * s; default: { double z = 0; for (auto &x : q) z += std::pow(x.second, 4) / 4 - x.second * x.second / 2; return z; } } }
static ParameterDict slope(int k, const ParameterDict &q) { ParameterDict g; double s = 0; int i = 0; for (auto &x : q) s += x.second; for (auto &x : q) { i++; double v = x.second; g[x.first] = k == 0 ? 0 : k == 1 ? i * v : k == 2 ? 0.5 * s + 0.6 * i * v : k == 3 ? 2 : v * v * v - v; } return g; }
struct Exact { int k; ParameterDict operator()(const ParameterDict &q) const { return slope(k, q); } };
// a particle between two walls after a drift: exactly where, and the way it moves; touch is set if it ends on a wall
static void fold(double &q, double &p, double dist, double lo, double hi, bool &touch) {
  double w = hi - lo, x = q - lo + dist, n = std::floor(x / w), y = x - n * w; long odd = std::lround(std::fmod(std::fabs(n), 2)); if (y < 1e-9 * w || w - y < 1e-9 * w) touch = true; q = lo + (odd ? w - y : y); if (odd) p = -p; }
struct State { ParameterDict q, p; };
static State follow(State s, const ParameterDict &m, double eps, int k, int n, const ParameterDict *lo, const ParameterDict *hi, bool &touch) {
  for (int i = 0; i < n; i++) { ParameterDict g = slope(k, s.q); for (auto &x : s.p) x.second -= eps / 2 * g[x.first]; for (auto &x : s.q) { double d = eps * s.p[x.first] / m.at(x.first); if (lo) fold(x.second, s.p[x.first], d, lo->at(x.first), hi->at(x.first), touch); else x.second += d; } g = slope(k, s.q); for (auto &x : s.p) x.second -= eps / 2 * g[x.first]; } return s; }
static bool near(const ParameterDict &a, const ParameterDict &b, double tol = 1e-8) { return mclose(a, b, tol, tol); }
static std::string show(const State &s) { return mstr(s.q) + " moving " + mstr(s.p); }
static const char *NAMES[] = {"x", "a", "m"};
static State start(int dims, const VD &qs, const VD &ps) { State s; for (int i = 0; i < dims; i++) { s.q[NAMES[i]] = pick(qs, "position") + 0.0; s.p[NAMES[i]] = pick(ps, "momentum") * (1 + 0.1 * i); } return s; }
static ParameterDict masses(int dims) { static const double m[] = {1, 2.5, 0.3}; ParameterDict r; bool same = flip("same masses"); for (int i = 0; i < dims; i++) r[NAMES[i]] = same ? 1 : m[i]; return r; }
static State reversed(State s) { for (auto &x : s.p) x.second = -x.second; return s; }

MC_SCENARIO_SPLIT(unbounded, 3) {
  int dims = 1 + choose(tier(2, 3), "dims"), k = choose(5, "potential"), n = pick(std::vector<int>{0, 1, 2, 7}, "steps"); double eps = pick(VD{0.05, 0.3}, "step"); State s = start(dims, dims == 3 ? VD{0.4, -1.3} : VD{0, 0.4, -1.3, 2.1}, dims == 3 ? VD{0.7, -2} : VD{0, 0.7, -2}), e = s; ParameterDict m = masses(dims); Exact g{k}; bool t = false; MC_OP("from " << show(s) << " potential " << k);
  LeapFrog::Hamiltonian(e.q, e.p, m, eps, g, n); State w = follow(s, m, eps, k, n, nullptr, nullptr, t); MC_CHECK(near(e.q, w.q) && near(e.p, w.p), "trajectory", show(e) << " expected " << show(w));
  State one = s; for (int i = 0; i < n; i++) LeapFrog::Hamiltonian(one.q, one.p, m, eps, g); MC_CHECK(near(one.q, w.q) && near(one.p, w.p), "trajectory in single steps", show(one) << " expected " << show(w));
  State b = reversed(e); LeapFrog::Hamiltonian(b.q, b.p, m, eps, g, n); b = reversed(b); MC_CHECK(near(b.q, s.q) && near(b.p, s.p), "trajectory is not reversible", show(b) << " expected " << show(s)); state(Hash().md(e.q).md(e.p).h); }
static void bounded(int dims, const VD &qs, const VD &ps, const std::vector<int> &ks, const std::vector<std::pair<double, double>> &boxes) {
  int k = pick(ks, "potential"), n = pick(std::vector<int>{1, 3, 8}, "steps"); double eps = pick(VD{0.125, 0.5}, "step"); ParameterDict lo, hi, m = masses(dims); for (int i = 0; i < dims; i++) { auto b = pick(boxes, "walls"); lo[NAMES[i]] = b.first; hi[NAMES[i]] = b.second; if (k == 4 && b.second == 10) prune(); /* too stiff for the step */ }
  State s; for (int i = 0; i < dims; i++) { double f = pick(qs, "position"), l = lo[NAMES[i]], h = hi[NAMES[i]]; s.q[NAMES[i]] = f == 0 ? l : f == 1 ? h : l + f * (h - l); s.p[NAMES[i]] = pick(ps, "momentum"); } State e = s; Exact g{k}; bool touch = false; MC_OP("from " << show(s) << " between " << mstr(lo) << " and " << mstr(hi) << " potential " << k);
  LeapFrog::Hamiltonian(e.q, e.p, m, eps, g, n, lo, hi); for (auto &x : e.q) MC_CHECK(x.second >= lo[x.first] - 1e-9 && x.second <= hi[x.first] + 1e-9, "outside the walls", show(e) << " from " << show(s));
  State w = follow(s, m, eps, k, n, &lo, &hi, touch); State ea = e, wa = w; bool edge = touch; if (edge && k == 0) { for (auto &x : ea.p) x.second = std::fabs(x.second); for (auto &x : wa.p) x.second = std::fabs(x.second); edge = false; }   /* ends on a wall: either direction */
  if (!edge) MC_CHECK(near(ea.q, wa.q, 1e-7) && near(ea.p, wa.p, 1e-7), "reflected trajectory", show(e) << " expected " << show(w));
  bool onWall = touch; for (auto &x : s.q) onWall |= x.second < lo[x.first] + 1e-9 || x.second > hi[x.first] - 1e-9; if (!onWall) { State b = reversed(e); LeapFrog::Hamiltonian(b.q, b.p, m, eps, g, n, lo, hi); b = reversed(b); MC_CHECK(near(b.q, s.q, 1e-6) && near(b.p, s.p, 1e-6), "reflected trajectory is not reversible", show(b) << " expected " << show(s)); } state(Hash().md(e.q).md(e.p).h); }
MC_SCENARIO_SPLIT(one_dimension, 4) { bounded(1, {0, 1, 0.5, 0.25, 0.3137, 0.99, 1e-13}, {0, 1, -1, 0.777, -2.3, 9, -31.7, 1e-9, -4}, {0, 1, 2, 3, 4}, {{-1, 1}, {0, 0.25}, {-3.3, 0.1}, {2, 10}}); }
MC_SCENARIO_SPLIT(two_dimensions, 5) { bounded(2, thorough() ? VD{0, 1, 0.5, 0.3137, 0.25} : VD{0, 1, 0.5, 0.3137}, thorough() ? VD{0, 1, -1, -2.3, 9, 4} : VD{0, 1, -2, 9.1}, thorough() ? std::vector<int>{0, 1, 2, 4} : std::vector<int>{0, 2}, {{-1, 1}, {0, 0.25}}); }
MC_SCENARIO_SPLIT(corners, 4) { bounded(3, {0, 1, 0.5}, thorough() ? VD{1, -1, 3, 0} : VD{1, -1}, thorough() ? std::vector<int>{0, 2} : std::vector<int>{0}, {{-1, 1}}); }
// walls reached together, but for the rounding of the times
MC_SCENARIO_SPLIT(together, 3) {
  int dims = 2 + choose(tier(1, 2), "dims"), n = pick(std::vector<int>{1, 3, 8}, "steps"); double f = pick(VD{0.1, 0.3, 0.3137, 0.5, 0.7, 0.9}, "position"), c = pick(VD{1.1, -0.93, 3.7, -7.7, 1. / 3}, "speed"), eps = pick(VD{0.5, 0.3}, "step"); static const VD W = {0.7, 1.3, 3.1, 1}, L = {-0.3, 0.1, 2. / 3}; ParameterDict lo, hi, m; State s;
  for (int i = 0; i < dims; i++) { double w = pick(W, "width"), l = pick(L, "low wall"); lo[NAMES[i]] = l; hi[NAMES[i]] = l + w; m[NAMES[i]] = 1; bool back = i && flip("the other way"); s.q[NAMES[i]] = l + (back ? 1 - f : f) * w; s.p[NAMES[i]] = (back ? -c : c) * w; }
  State e = s; Exact g{0}; bool touch = false; MC_OP("from " << show(s) << " between " << mstr(lo) << " and " << mstr(hi)); LeapFrog::Hamiltonian(e.q, e.p, m, eps, g, n, lo, hi); State w = follow(s, m, eps, 0, n, &lo, &hi, touch); if (touch) prune();
  for (auto &x : e.q) MC_CHECK(x.second >= lo[x.first] - 1e-9 && x.second <= hi[x.first] + 1e-9, "together: outside the walls", show(e)); MC_CHECK(near(e.q, w.q, 1e-7) && near(e.p, w.p, 1e-7), "together: reflected trajectory", show(e) << " expected " << show(w)); state(Hash().md(e.q).md(e.p).h); }
MC_SCENARIO(refusals) {
  ParameterDict q = {{"a", 0.2}, {"x", 0.3}}, p = {{"a", 1}, {"x", -1}}, m = {{"a", 1}, {"x", 1}}, lo = {{"a", 0}, {"x", 0}}, hi = {{"a", 1}, {"x", 1}}; int k = choose(6, "case"); switch (k) { case 0: hi["x"] = 0; break; case 1: lo["a"] = 2; break; case 2: lo.erase("a"); break; case 3: hi.erase("x"); break; case 4: m.erase("x"); break; case 5: lo["x"] = hi["x"] = 0.3; break; } std::string out; Exact g{0};
  int r = isolated([&]() -> std::string { LeapFrog::Hamiltonian(q, p, m, 0.5, g, 3, lo, hi); return show({q, p}); }, &out, 3); MC_CHECK(r == 1, "walls or masses that make no sense not refused", k << (r == 2 ? " crash" : r == 3 ? " hang" : "") << " " << out); if (k == 4) MC_CHECK(throws([&] { LeapFrog::Hamiltonian(q, p, m, 0.5, g, 3); }) && throws([&] { LeapFrog::Hamiltonian(q, p, m, 0.5, g); }), "missing mass accepted", ""); state(k); }
// a likelihood for the samplers and what wraps it
struct Like { int k; std::set<std::string> names; ParameterDict now; int calls = 0; double Evaluate() { calls++; return -potential(k, now); } void SetParameters(const ParameterDict &p) { now = p; } std::set<std::string> GetParameterNames() const { return names; } };
struct Energy { int k; std::set<std::string> names; ParameterDict now; double Evaluate() { return potential(k, now); } void SetParameters(const ParameterDict &p) { now = p; } std::set<std::string> GetParameterNames() const { return names; } };
MC_SCENARIO(gradients) {
  int dims = 1 + choose(3, "dims"), k = choose(5, "potential"); double eps = pick(VD{0.5, 0.01, 1e-4}, "step"); State s = start(dims, {0, 0.4, -1.3, 3}, {0}); ParameterDict q = s.q, w = slope(k, q); Energy e{k, {}, {}}; Gradient<Energy> g(e, eps); ParameterDict got = g(q); MC_CHECK(q == s.q, "gradient changes the point", ""); double tol = k == 4 ? 4 * eps * eps + 1e-9 : 1e-7; for (auto &x : w) MC_CHECK(got.count(x.first) && got.size() == w.size() && std::fabs(got[x.first] - x.second) <= tol * (1 + std::fabs(x.second)), "gradient", mstr(got) << " expected " << mstr(w));
  Like l{k, {}, {}}; HMCEnergy<Like> h(l); Gradient<HMCEnergy<Like>> hg(h, eps); ParameterDict got2 = hg(q); MC_CHECK(near(got, got2, 1e-6), "gradient of the energy of a likelihood", mstr(got2)); state(Hash().md(got).h); }
MC_SCENARIO(soft_walls) {
  int k = choose(3, "potential"), dims = 1 + choose(2, "dims"); double mu = pick(VD{1000, 1, 50}, "steepness"); ParameterDict lo = {{"a", -1}}, hi = {{"x", 1}}; if (flip("both")) { lo["x"] = -0.5; hi["a"] = 2; } if (dims == 1) { lo.erase("a"); hi.erase("a"); } Energy e{k, {"x"}, {}}; std::unique_ptr<SigmoidBoundary<Energy>> b(mu == 1000 ? new SigmoidBoundary<Energy>(e, lo, hi) : new SigmoidBoundary<Energy>(e, lo, hi, mu)); MC_CHECK(b->GetParameterNames() == e.names, "names", "");
  for (double x : {0., 0.999, 1., 1.001, 1.5, 2., 100., -0.5, -3., -0.49, -1e6}) for (double a : {0., -1., -1.01, -2., 2., 5., -1e5}) { ParameterDict p = {{"x", x}}; if (dims == 2) p["a"] = a; b->SetParameters(p); double w = potential(k, p); for (auto &l : lo) { double z = -mu * (p.at(l.first) - l.second); w += z > 30 ? z : std::log(1 + std::exp(z)); } for (auto &l : hi) { double z = mu * (p.at(l.first) - l.second); w += z > 30 ? z : std::log(1 + std::exp(z)); } double g = b->Evaluate(); MC_CHECK(std::isfinite(g) && close(g, w, 1e-9, 1e-9), "energy with soft walls", "at " << mstr(p) << " is " << g << " expected " << w); }
  // the slope pushes back, however far out
  Gradient<SigmoidBoundary<Energy>> gr(*b, 1e-3); for (double x : {1.5, 3., 40.}) { ParameterDict p = {{"x", x}}; if (dims == 2) p["a"] = 0; double g = gr(p)["x"]; MC_CHECK(std::isfinite(g) && g > 0.5, "soft wall doesn't push back", "at " << x << " slope " << g); } state(Hash().b(k).d(mu).b(dims).h); }
// the proposals of the sampler
MC_SCENARIO_SPLIT(sampler, 4) {
  int k = choose(3, "potential"), dims = 1 + choose(2, "dims"), n = 1 + choose(3, "steps"); bool walls = flip("walls"), heavy = flip("heavy"); double eps = 0.2; Like l{k, {}, {}}; ParameterDict q, lo, hi, m; for (int i = 0; i < dims; i++) { q[NAMES[i]] = 0.3 - 0.7 * i; lo[NAMES[i]] = -0.9; hi[NAMES[i]] = 0.8; l.names.insert(NAMES[i]); m[NAMES[i]] = heavy ? 4 + 5 * i : 1; } HMCEnergy<Like> h(l); MC_CHECK(h.GetParameterNames() == l.names, "names", ""); HamiltonianSampler<HMCEnergy<Like>> s(h, eps, n); if (heavy) s.SetMasses(m); if (walls) { s.SetMinima(lo); s.SetMaxima(hi); } MC_CHECK(s.GetMasses() == m && (!walls || (s.GetMinima() == lo && s.GetMaxima() == hi)), "settings", mstr(s.GetMasses()));
  int draws = tier(2, 3); for (int d = 0; d < draws; d++) {
    std::vector<std::pair<double, double>> asked; RandHooks::gaus() = [&](double mean, double sigma) { MC_CHECK(mean == 0, "momenta not around zero", mean); double g = pick(VD{-1.3, 0.21, 4.4}, "gaus"); asked.push_back({sigma, g}); return sigma * g; }; ParameterDict was = q, to = s.Draw(q); RandHooks::gaus() = nullptr; double corr = s.CorrectAccParam(); MC_CHECK(q == was, "the current step changed", ""); MC_CHECK(asked.size() == (size_t)dims, "momenta drawn", asked.size());
    // the momenta may be drawn in any order of the parameters
    std::vector<int> order; for (int i = 0; i < dims; i++) order.push_back(i); bool ok = false; std::string want; do { State st; st.q = q; bool fits = true; int i = 0; for (auto &x : q) { auto &a = asked[order[i++]]; fits &= close(a.first, std::sqrt(m[x.first])); st.p[x.first] = a.first * a.second; } if (!fits) continue; bool t = false; State e = follow(st, m, eps, k, n, walls ? &lo : nullptr, &hi, t); double k0 = s.KineticEnergy(st.p), k1 = s.KineticEnergy(e.p), r0 = 0; for (auto &x : st.p) r0 += x.second * x.second / 2 / m[x.first]; MC_CHECK(close(k0, r0), "kinetic energy", k0 << " expected " << r0); want += mstr(e.q) + " correction " + str(k0 - k1) + " "; ok |= near(to, e.q, 1e-5) && close(corr, k0 - k1, 1e-4, 1e-4); } while (std::next_permutation(order.begin(), order.end()));
    MC_CHECK(ok, "proposal", mstr(to) << " correction " << corr << " expected " << want); q = to; state(Hash().md(to).d(corr).h); } }
MC_SCENARIO(sampler_refusals) { Like l{1, {"a", "x"}, {}}; HMCEnergy<Like> h(l); HamiltonianSampler<HMCEnergy<Like>> s(h, 0.1, 2); int k = choose(3, "case"); ParameterDict q = {{"a", 0.1}, {"x", 0.2}}; if (k == 0) s.SetMasses({{"a", 1}}); if (k == 1) { s.SetMinima({{"a", 0}}); s.SetMaxima({{"a", 1}, {"x", 1}}); } if (k == 2) q["z"] = 1; MC_CHECK(throws([&] { s.Draw(q); }), "missing settings of the sampler accepted", k); state(k); }
// hundreds of steps and many parameters
MC_SCENARIO(many) {
  static const std::vector<int> ns = {16, 100, 257, 1000}; int dims = pick(std::vector<int>{1, 3, 6, 12}, "dims"), k = choose(2, "potential"), n = pick(ns, "steps"); bool walls = flip("walls"); double eps = pick(VD{0.03125, 0.07}, "step"); ParameterDict lo, hi, m; State s; for (int i = 0; i < dims; i++) { std::string nm = "p" + std::to_string(i); s.q[nm] = 0.3 - 0.05 * i + 0.003; s.p[nm] = (i % 2 ? -1 : 1) * (0.7 + 0.11 * i); m[nm] = 1 + 0.5 * (i % 4); lo[nm] = -1 - 0.1 * i; hi[nm] = 1.3 + 0.07 * i; }
  MC_OP(dims << " parameters, potential " << k << ", " << n << " steps of " << eps << (walls ? " between walls" : "")); State e = s; Exact g{k}; bool touch = false; if (walls) LeapFrog::Hamiltonian(e.q, e.p, m, eps, g, n, lo, hi); else LeapFrog::Hamiltonian(e.q, e.p, m, eps, g, n); State w = follow(s, m, eps, k, n, walls ? &lo : nullptr, walls ? &hi : nullptr, touch); if (touch) prune();
  MC_CHECK(near(e.q, w.q, 1e-6) && near(e.p, w.p, 1e-6), "many: trajectory", show(e) << " expected " << show(w)); if (walls) for (auto &x : e.q) MC_CHECK(x.second >= lo[x.first] && x.second <= hi[x.first], "many: outside the walls", show(e));
  State b = reversed(e); if (walls) LeapFrog::Hamiltonian(b.q, b.p, m, eps, g, n, lo, hi); else LeapFrog::Hamiltonian(b.q, b.p, m, eps, g, n); b = reversed(b); MC_CHECK(near(b.q, s.q, 1e-6) && near(b.p, s.p, 1e-6), "many: trajectory is not reversible", show(b) << " expected " << show(s)); state(Hash().md(e.q).md(e.p).h);
}
