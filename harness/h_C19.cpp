// C19 configuration files
#include "mc.h"
#include <ConfigLoader.hh>
#include <Exceptions.h>
#include <fstream>
#include <list>
#include <unistd.h>
using namespace mc;
typedef std::vector<std::string> VN;
typedef std::map<std::string, std::map<std::string, std::string>> Doc;

static std::string put(const std::string &name, const std::string &text) { std::string f = scratch() + "/" + name; std::ofstream(f) << text; return f; }
static std::string tr(const std::string &s) { size_t a = s.find_first_not_of(" \t\r\n"); if (a == std::string::npos) return ""; return s.substr(a, s.find_last_not_of(" \t\r\n") - a + 1); }
// what a file says; false if it is malformed
static bool reading(const std::vector<std::string> &lines, Doc &top) {
  std::string cur, sub; int depth = 0; std::map<std::string, std::string> loose; std::map<std::string, std::map<std::string, std::map<std::string, std::string>>> subs; std::map<std::string, std::set<std::string>> seen;
  for (auto &raw : lines) {
    std::string l = tr(raw); if (l.empty() || l[0] == '#' || l[0] == ';') continue;
    if (l[0] == '[') {
      size_t d = 0; while (d < l.size() && l[d] == '[') d++; std::string close(d, ']'); if (l.size() < 2 * d || l.substr(l.size() - d) != close) return false; std::string name = l.substr(d, l.size() - 2 * d); if (name.find(']') != std::string::npos) return false; name = tr(name);
      if ((int)d > depth + 1 || d > 2) return false;
      if (d == 1) { if (top.count(name)) return false; top[name]; cur = name; } else { if (!seen[cur].insert(name).second) return false; sub = name; }
      depth = d;
    } else {
      size_t e = l.find('='); if (e == std::string::npos) return false; auto &m = depth == 0 ? loose : depth == 1 ? top[cur] : subs[cur][sub]; if (!m.insert({tr(l.substr(0, e)), tr(l.substr(e + 1))}).second) return false;
    }
  }
  return true;
}
static void against(const Doc &doc, const std::string &what) {
  std::set<std::string> names; for (auto &s : doc) names.insert(s.first);
  MC_CHECK(ConfigLoader::ListSections() == names, "sections listed", what);
  static const VN secs = {"A", "B", "S", "", " A", "A ", "zz", "[A]"}, keys = {"k", "m", "", "zz", "A", "k = 1"};
  for (auto &s : secs) for (auto &k : keys) {
    auto i = doc.find(s); bool have = i != doc.end() && i->second.count(k); std::string v = "before"; bool t = throws([&] { ConfigLoader::Load(s, k, v); });
    MC_CHECK(t == !have, have ? "key in the file refused" : "key not in the file answered", what << " section '" << s << "' key '" << k << "' value " << v);
    if (have) MC_CHECK(v == i->second.at(k), "text loaded", what << " got '" << v << "' expected '" << i->second.at(k) << "'");
  }
  MC_CHECK(ConfigLoader::ListSections() == names, "loading adds sections", what);
}
// every file of a few lines
MC_SCENARIO_SPLIT(files, 3) {
  static const VN lines = {"[A]", "[B]", "k = one", "\tm=two = 3 \r", "# k = 5", "  ; [A]", "", "[[S]]", "k =", " [ A ] ", "[A", "[A]]", "no value", "  k=  four  # five", "[[S]", "m = [A]"};
  int n = tier(4, 5); VN f; std::string text; for (int i = 0; i < n; i++) { int w = choose((int)lines.size() + 1, "line"); if (w == 0) break; f.push_back(lines[w - 1]); MC_OP("line '" << f.back() << "'"); }
  bool end = f.empty() || flip("newline at the end"); for (size_t i = 0; i < f.size(); i++) text += f[i] + (i + 1 < f.size() || end ? "\n" : "");
  std::string p = put("f.ini", text); Doc doc; bool ok = reading(f, doc); bool t = throws([&] { ConfigLoader::Open(p); });
  MC_CHECK(t == !ok, ok ? "well formed file refused" : "malformed file accepted", text); against(ok ? doc : Doc(), ok ? "after opening" : "after a refused file"); Hash h; for (auto &s : doc) { h.s(s.first); for (auto &k : s.second) h.s(k.first).s(k.second); } state(h.b(ok).h);
  ConfigLoader::Close(); against(Doc(), "after closing");
}
// which file answers, through any history
MC_SCENARIO_SPLIT(histories, 3) {
  static const VN files = {"[A]\nk = 1\n[B]\nm = x\n", "[A]\nm = 2\n", "[B]\nk = 7\nk = 8\n", "[A]\nk = 3\njunk\n", "", "[A]\nk = 9\n[A\n"}; Doc docs[6]; docs[0] = {{"A", {{"k", "1"}}}, {"B", {{"m", "x"}}}}; docs[1] = {{"A", {{"m", "2"}}}}; bool good[6] = {true, true, false, false, true, false};
  ConfigLoader::Close(); Doc now; int n = tier(4, 6);
  for (int i = 0; i < n; i++) {
    int w = choose(8, "op");
    if (w < 6) { MC_OP("open " << w); std::string p = put("g" + std::to_string(w % 2) + ".ini", files[w]); MC_CHECK(throws([&] { ConfigLoader::Open(p); }) == !good[w], "opening", files[w]); now = good[w] ? docs[w] : Doc(); }
    else if (w == 6) { MC_OP("open a missing file"); MC_CHECK(throws([&] { ConfigLoader::Open(scratch() + "/none.ini"); }), "missing file accepted", ""); now = Doc(); }
    else { MC_OP("close"); ConfigLoader::Close(); now = Doc(); }
    if (fresh()) { against(now, "history"); int x = 42; if (now.count("A") && now["A"].count("k")) { ConfigLoader::Load("A", "k", x); MC_CHECK(x == 1, "number loaded", ""); } else MC_CHECK(throws([&] { ConfigLoader::Load("A", "k", x); }) && x == 42, "number answered", ""); std::vector<std::string> v; if (!(now.count("B") && now["B"].count("m"))) MC_CHECK(throws([&] { ConfigLoader::Load("B", "m", v); }) && v.empty(), "list answered", ""); state(Hash().b(now.size()).b(i).h); }
  }
}
// every kind of value
struct Val { const char *text; bool isInt; long long i; bool isNum; double d; };
static const Val VALS[] = {{"0", true, 0, true, 0}, {"1", true, 1, true, 1}, {"-1", true, -1, true, -1}, {"007", true, 7, true, 7}, {"+3", true, 3, true, 3}, {"255", true, 255, true, 255}, {"256", true, 256, true, 256}, {"32768", true, 32768, true, 32768}, {"65535", true, 65535, true, 65535}, {"65536", true, 65536, true, 65536}, {"-32768", true, -32768, true, -32768}, {"-32769", true, -32769, true, -32769}, {"2147483647", true, 2147483647LL, true, 2147483647.}, {"2147483648", true, 2147483648LL, true, 2147483648.}, {"-2147483648", true, -2147483648LL, true, -2147483648.}, {"-2147483649", true, -2147483649LL, true, -2147483649.}, {"4294967296", true, 4294967296LL, true, 4294967296.},
  {"9223372036854775807", true, 9223372036854775807LL, true, 9223372036854775807.}, {"1.5", false, 0, true, 1.5}, {"-0.25", false, 0, true, -0.25}, {"1e3", false, 0, true, 1000}, {"2.5e-3", false, 0, true, 0.0025}, {".5", false, 0, true, 0.5}, {"1.", false, 0, true, 1}, {"", false, 0, false, 0}, {"abc", false, 0, false, 0}, {"5x", false, 0, false, 0}, {"5 6", false, 0, false, 0}, {"1,2", false, 0, false, 0}, {"--1", false, 0, false, 0}, {"x5", false, 0, false, 0}, {"1.5.2", false, 0, false, 0}, {"1e", false, 0, false, 0}, {"true", false, 0, false, 0}, {"-", false, 0, false, 0}, {"[1]", false, 0, false, 0}};
template <class T> static void one(const Val &v, const char *type) {
  bool ok; T want = T();
  if (std::numeric_limits<T>::is_integer) { ok = v.isInt && (v.i >= 0 ? (unsigned long long)v.i <= (unsigned long long)std::numeric_limits<T>::max() : std::numeric_limits<T>::is_signed && v.i >= (long long)std::numeric_limits<T>::min()); want = (T)v.i; }
  else { ok = v.isNum; want = (T)v.d; }
  T got = T(); bool t = throws([&] { ConfigLoader::Load("A", "k", got); });
  MC_CHECK(t == !ok, ok ? "value refused" : "value that is not of this kind accepted", type << " from '" << v.text << "' gave " << got); if (ok) MC_CHECK(got == want, "value loaded", type << " from '" << v.text << "' got " << got);
}
MC_SCENARIO_SPLIT(values, 2) {
  int w = choose((int)(sizeof VALS / sizeof *VALS), "value"), type = choose(9, "type"), how = choose(3, "layout"); const Val &v = VALS[w]; std::string s = v.text; MC_OP("value '" << s << "'");
  std::string txt = how == 0 ? "[A]\nk=" + s + "\n" : how == 1 ? "[B]\nk = 17\n[A]\n  k  = \t " + s + "  \r\n[C]\nk=18" : "# c\n[A]\nm = 19\nk = " + s; ConfigLoader::Open(put("v.ini", txt));
  switch (type) { case 0: one<int>(v, "int"); break; case 1: one<unsigned>(v, "unsigned"); break; case 2: one<short>(v, "short"); break; case 3: one<unsigned short>(v, "unsigned short"); break; case 4: one<long>(v, "long"); break; case 5: one<size_t>(v, "size_t"); break; case 6: one<double>(v, "double"); break; case 7: one<bool>(v, "bool"); break;
    case 8: { std::string g; ConfigLoader::Load("A", "k", g); MC_CHECK(g == s, "text", "got '" << g << "'"); break; } }
  ConfigLoader::Close();
}
MC_SCENARIO_SPLIT(lists, 3) {
  static const VN el = {"1", "20", "-3", "x", "1.5"}; int n = 1 + choose(tier(3, 4), "length"); VN e; for (int i = 0; i < n; i++) e.push_back(el[choose((int)el.size(), "element")]); static const VN seps = {",", ", ", " ,\t"}; std::string sep = seps[choose(3, "separator")]; std::string s; for (int i = 0; i < n; i++) s += (i ? sep : "") + e[i]; MC_OP("list '" << s << "'");
  ConfigLoader::Open(put("l.ini", "[A]\nl = " + s + " \n[B]\nl = 4,5\n"));
  bool ints = true, nums = true; std::vector<int> wi; std::vector<double> wd; for (auto &x : e) { ints = ints && x != "x" && x != "1.5"; nums = nums && x != "x"; if (ints) wi.push_back(std::stoi(x)); if (nums) wd.push_back(std::stod(x)); }
  VN a; ConfigLoader::Load("A", "l", a); MC_CHECK(a == e, "list of texts", "got " << vstr(a)); std::set<std::string> b; ConfigLoader::Load("A", "l", b); MC_CHECK(b == std::set<std::string>(e.begin(), e.end()), "set of texts", ""); std::list<std::string> c; ConfigLoader::Load("A", "l", c); MC_CHECK(VN(c.begin(), c.end()) == e, "list of texts", "");
  std::vector<int> vi; MC_CHECK(throws([&] { ConfigLoader::Load("A", "l", vi); }) == !ints, "list of integers", s); if (ints) MC_CHECK(vi == wi, "list of integers", s); std::vector<double> vd; MC_CHECK(throws([&] { ConfigLoader::Load("A", "l", vd); }) == !nums, "list of numbers", s); if (nums) MC_CHECK(vclose(vd, wd), "list of numbers", s);
  std::set<int> si; MC_CHECK(throws([&] { ConfigLoader::Load("A", "l", si); }) == !ints, "set of integers", s); if (ints) MC_CHECK(si == std::set<int>(wi.begin(), wi.end()), "set of integers", s);
  std::vector<int> vb; ConfigLoader::Load("B", "l", vb); MC_CHECK((vb == std::vector<int>{4, 5}), "list of the other section", ""); ConfigLoader::Load("B", "l", vb); MC_CHECK((vb == std::vector<int>{4, 5, 4, 5}), "loading into a list in use keeps its elements", "");
  ConfigLoader::Close();
}
// many sections and keys, long values and lists
MC_SCENARIO(many) {
  static const std::vector<int> ns = {1, 9, 10, 11, 33, 100, 257, 1000}; int S = ns[choose(tier(6, 8), "sections")], K = ns[choose(6, "keys")], len = pick(std::vector<int>{1, 79, 80, 127, 128, 255, 256, 257, 1023, 1024, 4096, 70000}, "length of a value"); if ((long)S * K > 12000) prune(); bool back = flip("backwards");
  std::string txt, lng, list; for (int i = 0; i < len; i++) lng += "abcdefghijk=#[];,."[i * 5 % 18]; lng[0] = 'a'; lng[len - 1] = 'z'; VN el; for (int i = 0; i < len && i < 5000; i++) { el.push_back(std::to_string(i * 37 % 1009 - 300)); list += (i ? "," : "") + el.back(); }
  for (int a = 0; a < S; a++) { int s = back ? S - 1 - a : a; txt += "[s" + std::to_string(s) + "]\n"; for (int b = 0; b < K; b++) { int k = back ? K - 1 - b : b; txt += "k" + std::to_string(k) + " = " + std::to_string(s * 1000 + k) + "\n"; if (b % 7 == 3) txt += "# k" + std::to_string(k) + " = 1\n\n"; } if (s == S / 2) txt += "long = " + lng + "\nlist = " + list + "\n"; }
  ConfigLoader::Open(put("m.ini", txt)); MC_OP(S << " sections of " << K << " keys, value of " << len << " characters"); std::set<std::string> names; for (int s = 0; s < S; s++) names.insert("s" + std::to_string(s)); MC_CHECK(ConfigLoader::ListSections() == names, "many: sections", ConfigLoader::ListSections().size());
  for (int s = 0; s < S; s++) { std::string sec = "s" + std::to_string(s); for (int k = 0; k < K; k++) { int v = -1; ConfigLoader::Load(sec, "k" + std::to_string(k), v); MC_CHECK(v == s * 1000 + k, "many: value", sec << " k" << k << " gives " << v); } int v = -1; MC_CHECK(throws([&] { ConfigLoader::Load(sec, "k" + std::to_string(K), v); }) && v == -1, "many: key not in the file answered", sec); std::string t; MC_CHECK(throws([&] { ConfigLoader::Load(sec, "long", t); }) == (s != S / 2), "many: key of another section", sec); }
  std::string sec = "s" + std::to_string(S / 2), t; ConfigLoader::Load(sec, "long", t); MC_CHECK(t == lng, "many: long text", "got " << t.size() << " characters of " << len); VN l; ConfigLoader::Load(sec, "list", l); MC_CHECK(l == el, "many: long list", l.size() << " elements, expected " << el.size()); std::vector<double> d; ConfigLoader::Load(sec, "list", d); MC_CHECK(d.size() == el.size(), "many: long list of numbers", d.size()); for (size_t i = 0; i < d.size(); i++) MC_CHECK(d[i] == std::stod(el[i]), "many: long list of numbers", i);
  int v; MC_CHECK(throws([&] { ConfigLoader::Load("s" + std::to_string(S), "k0", v); }), "many: section not in the file answered", S); ConfigLoader::Close(); ConfigLoader::Open(put("n.ini", "[s0]\nk0 = 5\n")); ConfigLoader::Load("s0", "k0", v); MC_CHECK(v == 5 && ConfigLoader::ListSections().size() == 1 && throws([&] { ConfigLoader::Load("s0", "k1", v); }), "many: the file before is still there", v); ConfigLoader::Close(); state(Hash().b(S).b(K).b(len).b(back).h);
}
