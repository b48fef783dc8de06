// C18 matrices against plain arrays
#include "mc.h"
#include <DenseMatrix.h>
#include <SparseMatrix.h>
#include <memory>
#include <algorithm>
using namespace mc;
typedef std::vector<double> VD;

struct P { size_t r = 0, c = 0; std::vector<VD> a; P() {} P(size_t R, size_t C) : r(R), c(C), a(R, VD(C, 0)) {} };
static P mul(const P &x, const P &y) { P o(x.r, y.c); for (size_t i = 0; i < x.r; i++) for (size_t j = 0; j < y.c; j++) for (size_t k = 0; k < x.c; k++) o.a[i][j] += x.a[i][k] * y.a[k][j]; return o; }
static VD app(const P &x, const VD &v) { VD o(x.r, 0); for (size_t i = 0; i < x.r; i++) for (size_t k = 0; k < x.c; k++) o[i] += x.a[i][k] * v[k]; return o; }
static void check(const P &p, const DenseMatrix &d, const SparseMatrix &s, const char *what, bool edges = true) {
  MC_CHECK(s.GetNRows() == p.r && s.GetNCols() == p.c, "shape of a sparse matrix", what);
  for (size_t i = 0; i < p.r; i++) for (size_t j = 0; j < p.c; j++) { MC_CHECK(close(d.GetComponent(i, j), p.a[i][j]), "dense component", what << " (" << i << "," << j << ") got " << d.GetComponent(i, j) << " expected " << p.a[i][j]); MC_CHECK(close(s.GetComponent(i, j), p.a[i][j]), "sparse component", what << " (" << i << "," << j << ") got " << s.GetComponent(i, j) << " expected " << p.a[i][j]); }
  if (edges) {
  static const std::pair<size_t, size_t> off[] = {{0, 1}, {1, 0}, {7, 7}, {(size_t)-1, 0}};
  for (auto &o : off) { size_t i = o.first == 1 ? p.r : o.first, j = o.second == 1 ? p.c : o.second; if (i < p.r && j < p.c) continue; MC_CHECK(throws([&] { d.GetComponent(i, j); }) && throws([&] { s.GetComponent(i, j); }), "component outside the matrix answered", what); } }
  for (size_t n = 0; n < 5; n++) {
    VD v; for (size_t i = 0; i < n; i++) v.push_back(1.5 * i - 1); VD in = v;
    if (n == p.c) { VD w = app(p, v); MC_CHECK(vclose(d(v), w) && vclose(s(v), w), "applying", what << " to " << vstr(v) << " dense " << vstr(d(v)) << " sparse " << vstr(s(v)) << " expected " << vstr(w)); MC_CHECK(v == in, "applying changed the contents", what); }
    else if (p.r && edges) MC_CHECK(throws([&] { d(v); }) && throws([&] { s(v); }), "applied to contents of another size", what << " (" << p.r << "x" << p.c << ") to " << n);
  }
  Hash h; h.b(p.r).b(p.c); for (auto &x : p.a) h.vd(x); state(h.h);
}
static const P &fixedP(int r, int c) { static P t[4][4]; P &p = t[r][c]; if (p.r == 0) { p = P(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) p.a[i][j] = ((i * 3 + j * 5 + r) % 4) - 1; } return p; }
static DenseMatrix D(const P &p) { DenseMatrix d(p.r, p.c); for (size_t i = 0; i < p.r; i++) for (size_t j = 0; j < p.c; j++) d.SetComponent(i, j, p.a[i][j]); return d; }
static SparseMatrix S(const P &p) { SparseMatrix d(p.r, p.c); for (size_t i = 0; i < p.r; i++) for (size_t j = 0; j < p.c; j++) if (p.a[i][j]) d.SetComponent(i, j, p.a[i][j]); return d; }

MC_SCENARIO_SPLIT(histories, 4) {
  static const int sh[][2] = {{2, 2}, {1, 3}, {3, 2}, {3, 3}, {1, 1}, {2, 3}, {3, 1}, {2, 1}, {1, 2}}; int w = choose(tier(4, 9), "shape"), r = sh[w][0], c = sh[w][1]; P p(r, c); DenseMatrix d(r, c); SparseMatrix s(r, c); int n = tier(3, 4);
  std::vector<P> oldP; std::vector<DenseMatrix> oldD; std::vector<SparseMatrix> oldS;
  for (int k = 0; k < n; k++) {
    int op = choose(9, "op");
    if (op == 0) { int i = choose(p.r + 1, "row"), j = choose(p.c + 1, "column"); double v = VD{0, -1.5, 3}[choose(tier(2, 3), "value")]; MC_OP("set (" << i << "," << j << ") to " << v); bool bad = i >= (int)p.r || j >= (int)p.c; MC_CHECK(throws([&] { d.SetComponent(i, j, v); }) == bad && throws([&] { s.SetComponent(i, j, v); }) == bad, "setting a component", ""); if (!bad) p.a[i][j] = v; }
    else if (op == 1) { MC_OP("zeros"); d.SetZeros(); s.SetZeros(); p = P(p.r, p.c); }
    else if (op == 2) { MC_OP("identity"); bool bad = p.r != p.c; MC_CHECK(throws([&] { d.SetToIdentity(); }) == bad && throws([&] { s.SetToIdentity(); }) == bad, "identity", ""); if (!bad) { p = P(p.r, p.c); for (size_t i = 0; i < p.r; i++) p.a[i][i] = 1; } }
    else if (op == 3) { double f = flip("zero") ? 0 : -2; MC_OP("scale by " << f); s.Scale(f); for (size_t i = 0; i < p.r; i++) for (size_t j = 0; j < p.c; j++) { p.a[i][j] *= f; d.SetComponent(i, j, p.a[i][j]); } }
    else if (op == 4) { int which = choose(6, "components"); MC_OP("components " << which); typedef long long unsigned U; std::vector<U> ri, ci; VD v; bool bad = false; P q(p.r, p.c);
      if (which == 1) { for (size_t i = 0; i < p.r; i++) for (size_t j = 0; j < p.c; j++) if ((i + j) % 2 == 0) { ri.push_back(i); ci.push_back(j); v.push_back(i + 2. * j + 1); } }
      if (which == 2) { for (int i = (int)p.r - 1; i >= 0; i--) for (int j = (int)p.c - 1; j >= 0; j--) { ri.push_back(i); ci.push_back(j); v.push_back(i - 2. * j); } }   // not in order
      if (which == 3) { ri = {0}; ci = {0}; v = {4}; } if (which == 4) { ri = {0, p.r}; ci = {0, 0}; v = {1, 2}; bad = true; } if (which == 5) { ri = {0}; ci = {0, 0}; v = {1}; bad = true; }
      MC_CHECK(throws([&] { s.SetComponents(ri, ci, v); }) == bad, "setting components", "way " << which); if (!bad) { for (size_t i = 0; i < v.size(); i++) q.a[ri[i]][ci[i]] = v[i]; p = q; d = D(p); } }
    else if (op == 5) { int m = thorough() ? 1 + choose(3, "rows of the other") : flip("fits") ? (int)p.c : (int)p.c % 3 + 1, l = 1 + choose(3, "columns of the other"); MC_OP("multiply by a " << m << "x" << l); const P &b = fixedP(m, l); DenseMatrix bd = D(b); SparseMatrix bs = S(b); bool bad = (int)p.c != m; int way = choose(2, "way"); 
      if (way == 0) { MC_CHECK(throws([&] { d *= bd; }) == bad && throws([&] { s *= bs; }) == bad, "multiplying", ""); }
      else { MC_CHECK(throws([&] { d *= bd; }) == bad && throws([&] { SparseMatrix q = s * bs; check(p, D(p), s, "left operand"); s = q; }) == bad, "multiplying", ""); }
      check(b, bd, bs, "right operand", false); if (!bad) p = mul(p, b); }
    else if (op == 6) { MC_OP("multiply by itself"); bool bad = p.r != p.c; MC_CHECK(throws([&] { d *= d; }) == bad && throws([&] { if (flip("product")) s = s * s; else s *= s; }) == bad, "multiplying by itself", ""); if (!bad) p = mul(p, p); }
    else if (op == 7) { int len = choose(7, "entries"); MC_OP("symmetric from " << len); VD v; for (int i = 0; i < len; i++) v.push_back(2 * i - 3); bool bad = p.r != p.c || len != (int)(p.r * (p.r + 1) / 2); MC_CHECK(throws([&] { d.SetSymmetricMatrix(v); }) == bad, "symmetric", ""); if (!bad) { int x = 0; for (size_t j = 0; j < p.r; j++) for (size_t i = 0; i <= j; i++) { p.a[i][j] = p.a[j][i] = v[x++]; } s = S(p); } }
    else { MC_OP("keep a copy"); oldP.push_back(p); oldD.push_back(d); oldS.push_back(s); }
    if (!fresh()) continue;
    check(p, d, s, "matrix", op == 0 || op >= 4); for (size_t i = 0; i < oldP.size(); i++) check(oldP[i], oldD[i], oldS[i], "copy", false);
  }
}
// every pair of small matrices: the product applied is the factors applied in turn
MC_SCENARIO_SPLIT(products, 4) {
  int n = 2; static const VD vals = {0, 1, -2}; P a(n, n), b(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a.a[i][j] = vals[choose(3, "a")]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) b.a[i][j] = vals[choose(3, "b")];
  SparseMatrix sa = S(a), sb = S(b), sp = sa * sb; DenseMatrix da = D(a), db = D(b), dp = da; dp *= db; check(mul(a, b), dp, sp, "product"); check(a, da, sa, "left operand"); check(b, db, sb, "right operand");
  VD v = {1, 0.5}; MC_CHECK(vclose(sp(v), sa(sb(v))) && vclose(dp(v), da(db(v))), "product applied differs from its factors in turn", "");
  SparseMatrix id(n, n); id.SetToIdentity(); MC_CHECK(vclose((id * sa)(v), sa(v)) && vclose((sa * id)(v), sa(v)) && vclose(id(v), v), "identity", "");
}
// matrices without a shape
MC_SCENARIO(empty) {
  DenseMatrix d; SparseMatrix s; int o = choose(6, "op"); MC_OP("empty, operation " << o);
  if (o == 0) MC_CHECK(throws([&] { d.SetComponent(0, 0, 1); }) && throws([&] { s.SetComponent(0, 0, 1); }) && throws([&] { d.GetComponent(0, 0); }) && throws([&] { s.GetComponent(0, 0); }), "empty: component", "");
  if (o == 1) MC_CHECK(throws([&] { d.SetZeros(); }) && throws([&] { s.SetZeros(); }), "empty: zeros", "");
  if (o == 2) MC_CHECK(throws([&] { d.SetToIdentity(); }) && throws([&] { s.SetToIdentity(); }), "empty: identity", "");
  if (o == 3) { DenseMatrix e(2, 2); SparseMatrix t(2, 2); MC_CHECK(throws([&] { e *= d; }) && throws([&] { t *= s; }) && throws([&] { d *= e; }) && throws([&] { s *= t; }), "empty: multiplied", ""); }
  if (o == 4) { VD v = {1}; MC_CHECK(throws([&] { d(v); }) && throws([&] { s(v); }), "empty: applied", ""); }
  if (o == 5) { d = DenseMatrix(2, 2); s = SparseMatrix(2, 2); d.SetComponent(1, 0, 3); s.SetComponent(1, 0, 3); P p(2, 2); p.a[1][0] = 3; check(p, d, s, "assigned to an empty one"); }
}

// sizes up to several tens, all of every matrix compared
MC_SCENARIO(many) {
  static const std::vector<int> ns = {4, 5, 8, 9, 16, 17, 33, 40}; int n = pick(ns, "rows"), m = pick(ns, "inner"), l = ns[(choose(4, "columns") * 3 + 1) % 8], fill = choose(4, "filling");
  auto mkP = [&](int r, int c, int salt) { P p(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { double v = ((i * 7 + j * 11 + salt) % 9) - 3.5; bool on = fill == 0 ? true : fill == 1 ? (i * 3 + j + salt) % 4 == 0 : fill == 2 ? i == j || j == c - 1 - i : i == r - 1 || j == 0; p.a[i][j] = on ? v : 0; } return p; };
  auto same = [&](const P &p, const DenseMatrix &d, const SparseMatrix &s, const char *w) { MC_CHECK(s.GetNRows() == p.r && s.GetNCols() == p.c, "many: shape", w); for (size_t i = 0; i < p.r; i++) for (size_t j = 0; j < p.c; j++) MC_CHECK(close(d.GetComponent(i, j), p.a[i][j], 1e-10, 1e-9) && close(s.GetComponent(i, j), p.a[i][j], 1e-10, 1e-9), "many: component", w << " (" << i << "," << j << ") dense " << d.GetComponent(i, j) << " sparse " << s.GetComponent(i, j) << " expected " << p.a[i][j]); VD v; for (size_t i = 0; i < p.c; i++) v.push_back(0.5 * (i % 7) - 1); VD q = app(p, v); MC_CHECK(vclose(d(v), q, 1e-10, 1e-9) && vclose(s(v), q, 1e-10, 1e-9), "many: applying", w); };
  P a = mkP(n, m, 1), b = mkP(m, l, 4); DenseMatrix da = D(a), db = D(b); SparseMatrix sa = S(a), sb = S(b); MC_OP(n << "x" << m << " by " << m << "x" << l << " filling " << fill); same(a, da, sa, "left"); same(b, db, sb, "right"); P ab = mul(a, b); SparseMatrix sp = sa * sb; DenseMatrix dp = da; dp *= db; same(ab, dp, sp, "product"); same(a, da, sa, "left after"); same(b, db, sb, "right after"); sa *= sb; same(ab, dp, sa, "product in place");
  typedef long long unsigned U; std::vector<U> ri, ci; VD v; for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) if (a.a[i][j]) { ri.push_back(i); ci.push_back(j); v.push_back(a.a[i][j]); } SparseMatrix sc(n, m); sc.SetComponents(ri, ci, v); same(a, da, sc, "components by column"); { SparseMatrix t(n, m), u(n, m); for (size_t k = 0; k < v.size(); k++) t.SetComponent(ri[v.size() - 1 - k], ci[v.size() - 1 - k], v[v.size() - 1 - k]); same(a, da, t, "set backwards"); std::vector<U> rr(ri.rbegin(), ri.rend()), cr(ci.rbegin(), ci.rend()); VD vr(v.rbegin(), v.rend()); u.SetComponents(rr, cr, vr); same(a, da, u, "components backwards"); u.Scale(-0.5); P h = a; for (auto &x : h.a) for (double &y : x) y *= -0.5; same(h, D(h), u, "scaled"); u.SetZeros(); same(P(n, m), D(P(n, m)), u, "zeros"); }
  SparseMatrix id(n, n); id.SetToIdentity(); DenseMatrix di(n, n); di.SetToIdentity(); P pi(n, n); for (int i = 0; i < n; i++) pi.a[i][i] = 1; same(pi, di, id, "identity"); same(a, da, id * sc, "identity times");
  { VD e; P q(n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { e.push_back(i * 3.5 - j * 1.25 + 1); } DenseMatrix d(n, n); d.SetSymmetricMatrix(e); VD got, want = e; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { MC_CHECK(d.GetComponent(i, j) == d.GetComponent(j, i), "many: symmetric matrix is not", i << "," << j); if (j <= i) got.push_back(d.GetComponent(i, j)); } std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); MC_CHECK(got == want, "many: symmetric entries", n); }
  state(Hash().b(n).b(m).b(l).b(fill).vd(ab.a[0]).h);
}
