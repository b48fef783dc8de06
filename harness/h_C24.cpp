// C24 what is written to file is what is read back
#include "mc.h"
#include <IO.h>
#include <OXSXDataSet.h>
#include <LazyOXSXDataSet.h>
#include <ROOTNtuple.h>
#include <ROOTTree.h>
#include <Histogram.h>
#include <BinnedED.h>
#include <DistTools.h>
#include <Event.h>
#include <Exceptions.h>
#include <TFile.h>
#include <TNtuple.h>
#include <TTree.h>
#include <TH1D.h>
#include <TH2D.h>
#include <TH3D.h>
#include <H5Cpp.h>
#include <cstring>
#include <fstream>
#include <FitResult.h>
#include <cmath>
#include <iostream>
#include <limits>
#include <memory>
#include <unistd.h>
using namespace mc;
typedef std::vector<double> VD;
typedef std::vector<std::string> VN;
static struct Quiet { Quiet() { std::cout.setstate(std::ios::failbit); H5::Exception::dontPrint(); } } quiet;

static bool bits(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }
static bool bits(const VD &a, const VD &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!bits(a[i], b[i])) return false; return true; }
static const VD &odd() { static const VD v = {0, 1.5, -0.0, 1e-310, -1e300, 0.1, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()}; return v; }
static double value(int pattern, size_t i) { return pattern == 0 ? odd()[i % odd().size()] : pattern == 1 ? 1. / 3 + i : pattern == 2 ? -double(i) : odd()[(i * 5 + 3) % odd().size()]; }
static VN namesOf(int scheme, int n) {
  VN out;
  for (int i = 0; i < n; i++)
    switch (scheme) {
      case 0: out.push_back(MC_STR("x" << i)); break;
      case 1: out.push_back(std::string(31, 'a') + char('a' + i)); break;           // 63, 95 with the delimiters
      case 2: out.push_back(std::string(63 - i, 'a') + char('a' + i)); break;       // 64 alone
      case 3: out.push_back(std::string(64 + 10 * i, 'b') + char('a' + i)); break;
      case 4: out.push_back(i ? MC_STR(" y " << i) : std::string("")); break;
      case 5: out.push_back(MC_STR("$\\rho^" << i << "$ \xc3\xa9 /;,")); break;
      case 6: out.push_back(std::string(300, 'c') + char('a' + i)); break;
      case 7: out.push_back("same"); break;
    }
  return out;
}
static const int SCHEMES = 8;
static void check(const DataSet &d, const VN &names, const std::vector<VD> &rows, bool single, const std::string &what) {
  MC_CHECK(d.GetNEntries() == rows.size(), what + ": number of events", d.GetNEntries() << " expected " << rows.size());
  MC_CHECK(d.GetObservableNames() == names, what + ": names", vstr(d.GetObservableNames()) << " expected " << vstr(names));
  if (rows.size()) MC_CHECK(d.GetNObservables() == rows[0].size(), what + ": number of observables", d.GetNObservables());
  size_t step = rows.size() > 5000 ? 97 : 1;
  for (size_t i = 0; i < rows.size(); i += (i + step < rows.size() || i + 1 == rows.size()) ? step : rows.size() - 1 - i) {
    Event e = d.GetEntry(i); VD want = rows[i]; if (single) for (auto &x : want) x = (float)x;
    MC_CHECK(bits(e.GetData(), want), what + ": data", "event " << i << " is " << (want.size() < 20 ? vstr(e.GetData()) : std::string()) << " expected " << (want.size() < 20 ? vstr(want) : std::string()));
    if (want.size() < 20) { MC_CHECK(e.GetObservableNames() == names, what + ": names of an event", vstr(e.GetObservableNames())); MC_CHECK(bits(e.GetDatum(names[0]), want[0]), what + ": value by name", ""); }
  }
  MC_CHECK(throws([&] { d.GetEntry(rows.size()); }), what + ": event past the end", "");
}
static OXSXDataSet data(const VN &names, const std::vector<VD> &rows) { OXSXDataSet d; d.SetObservableNames(names); for (auto &r : rows) d.AddEntry(Event(r)); return d; }
static std::vector<VD> rowsOf(int nObs, int n, int pattern) { std::vector<VD> r; for (int i = 0; i < n; i++) { VD v; for (int j = 0; j < nObs; j++) v.push_back(value(pattern, (size_t)i * nObs + j)); r.push_back(v); } return r; }

MC_SCENARIO(data_sets) {
  bool root = flip("root"); std::string ext = root ? ".root" : ".h5"; int nObs = 1 + choose(3, "observables"), n = choose(4, "events"), scheme = choose(SCHEMES, "names"), pattern = choose(4, "values"); if (root && (scheme == 4 || scheme == 7)) prune(); if (scheme == 4 && nObs == 1 && !n) prune();   /* one nameless observable of no events: not told from none */
  VN names = namesOf(scheme, nObs); auto rows = rowsOf(nObs, n, pattern); OXSXDataSet d = data(names, rows); std::string f = scratch() + "/d.x" + ext; MC_OP(nObs << " observables " << n << " events names " << scheme);
  if (flip("something there already")) IO::SaveDataSet(data(VN{"old"}, {{9}, {8}, {7}, {6}}), f);
  IO::SaveDataSet(d, f, "tree"); check(d, names, rows, false, "the data set saved");
  if (root) { ROOTNtuple nt(f, "tree"); check(nt, names, rows, true, "ntuple"); MC_CHECK(throwsA<IOError>([&] { ROOTNtuple x(f, "other"); }) && throwsA<IOError>([&] { ROOTNtuple x(f + "x", "tree"); }), "ntuple: what is missing is refused", ""); IO::SaveDataSet(nt, scratch() + "/c.h5"); std::unique_ptr<OXSXDataSet> c(IO::LoadDataSet(scratch() + "/c.h5")); check(*c, names, rows, true, "copied from an ntuple"); }
  else { std::unique_ptr<OXSXDataSet> l(IO::LoadDataSet(f)); check(*l, names, rows, false, "loaded data set"); if (n) { l->AddEntry(Event(rows[0])); rows.push_back(rows[0]); check(*l, names, rows, false, "extended data set"); } IO::SaveDataSet(*l, f); l.reset(IO::LoadDataSet(f)); check(*l, names, rows, false, "saved again"); }
  state(Hash().b(nObs).b(n).b(scheme).b(pattern).b(root).h);
}
MC_SCENARIO_SPLIT(large_data_sets, 1) {   // around the sizes at which writing and reading go piecewise
  std::vector<std::pair<int, int>> sizes = {{1, 9999}, {1, 10000}, {1, 10001}, {1, 19999}, {1, 20000}, {3, 3333}, {3, 3334}, {3, 6667}, {7, 4000}, {10001, 1}, {10001, 2}, {10001, 3}, {30000, 2}, {25000, 3}, {9999, 1}, {5000, 2}, {1, 1000001}, {1, 100000}, {2, 50001}};
  if (thorough()) for (auto s : std::vector<std::pair<int, int>>{{1, 999999}, {1, 1000000}, {2, 1000000}, {1, 1100000}, {1, 1100001}, {2, 1234567}}) sizes.push_back(s);
  auto s = pick(sizes, "size"); MC_OP(s.first << " observables " << s.second << " events"); VN names = namesOf(0, s.first); auto rows = rowsOf(s.first, s.second, 1); OXSXDataSet d = data(names, rows); std::string f = scratch() + "/large.h5";
  if (s.first > 15000) { bool saved = true; try { IO::SaveDataSet(d, f); } catch (const IOError &) { saved = false; } if (!saved) { MC_CHECK(throwsA<IOError>([&] { delete IO::LoadDataSet(f); }), "data set that could not be saved is read", ""); unlink(f.c_str()); state(s.first); return; } }
  IO::SaveDataSet(d, f); { std::unique_ptr<OXSXDataSet> l(IO::LoadDataSet(f)); check(*l, names, rows, false, "loaded large data set"); } unlink(f.c_str()); state(Hash().b(s.first).b(s.second).h);
}
MC_SCENARIO(refused_data_sets) {
  bool root = flip("root"); std::string f = scratch() + (root ? "/r.root" : "/r.h5"); VN old = {"p", "q"}; std::vector<VD> oldRows = {{1, 2}}; IO::SaveDataSet(data(old, oldRows), f, "tree");
  int kind = choose(6, "kind"); VN names; std::vector<VD> rows = {{1, 2}, {3, 4}};
  switch (kind) { case 0: names = {"a:b", "c"}; break; case 1: names = {"a", ":"}; break; case 2: names = {"a"}; break; case 3: names = {"a", "b", "c"}; break; case 4: break; case 5: names = {std::string("a\0b", 3), "c"}; break; }
  if (flip("no events") && kind >= 2 && kind <= 4) prune(); bool none = kind < 2 && flip("none"); if (none) rows.clear();
  OXSXDataSet d = data(names, rows); MC_OP("save with names " << vstr(names)); MC_CHECK(throwsA<IOError>([&] { IO::SaveDataSet(d, f, "tree"); }), "names that can't be saved accepted", vstr(names));
  if (root) { ROOTNtuple nt(f, "tree"); check(nt, old, oldRows, false, "what was there before"); } else { std::unique_ptr<OXSXDataSet> l(IO::LoadDataSet(f)); check(*l, old, oldRows, false, "what was there before"); }
  for (const char *e : {"/x.txt", "/x", "/x.", "/x.h5x"}) MC_CHECK(throws([&] { IO::SaveDataSet(data(old, oldRows), scratch() + e); }) || std::string(e) == "/x", "extension accepted", e);
  MC_CHECK(throwsA<IOError>([&] { IO::SaveDataSet(data(old, oldRows), scratch() + "/nowhere/x.h5"); }), "writing to nowhere accepted", "");
  state(Hash().b(kind).b(root).h);
}
static AxisCollection axes(int dims, int scheme, int bins, bool uneven) {
  AxisCollection a; VN n = namesOf(scheme, dims), l = namesOf((scheme + 3) % 7, dims);
  for (int i = 0; i < dims; i++) { int b = bins == 0 ? 1 : bins == 1 ? 2 + i : 3 - i; if (!uneven) a.AddAxis(BinAxis(n[i], -1 - i, 0.3 * (i + 1), b, i % 2 ? l[i] : "")); else { VD lo, hi; double x = i - 0.7; for (int j = 0; j < b; j++) { lo.push_back(x); x += 0.1 + j * j; hi.push_back(x); } a.AddAxis(BinAxis(n[i], lo, hi, l[i])); } }
  return a;
}
static void check(const Histogram &h, const Histogram &w, const std::string &what, bool names = true) {
  MC_CHECK(h.GetNDims() == w.GetNDims(), what + ": dimensions", h.GetNDims() << " expected " << w.GetNDims());
  for (size_t i = 0; i < w.GetNDims(); i++) {
    const BinAxis &a = h.GetAxes().GetAxis(i), &b = w.GetAxes().GetAxis(i);
    if (names) { MC_CHECK(a.GetName() == b.GetName(), what + ": axis name", a.GetName() << " expected " << b.GetName()); MC_CHECK(a.GetLatexName() == b.GetLatexName(), what + ": latex name", a.GetLatexName() << " expected " << b.GetLatexName()); }
    if (names) { MC_CHECK(bits(a.GetBinLowEdges(), b.GetBinLowEdges()) && bits(a.GetBinHighEdges(), b.GetBinHighEdges()), what + ": edges", "axis " << i << " " << vstr(a.GetBinLowEdges()) << " to " << vstr(a.GetBinHighEdges()) << " expected " << vstr(b.GetBinLowEdges()) << " to " << vstr(b.GetBinHighEdges())); }
    else MC_CHECK(vclose(a.GetBinLowEdges(), b.GetBinLowEdges()) && vclose(a.GetBinHighEdges(), b.GetBinHighEdges()), what + ": edges", "axis " << i << " " << vstr(a.GetBinLowEdges()) << " to " << vstr(a.GetBinHighEdges()) << " expected " << vstr(b.GetBinLowEdges()) << " to " << vstr(b.GetBinHighEdges()));
  }
  bool same = h.GetBinContents().size() == w.GetBinContents().size(); for (size_t i = 0; same && i < w.GetBinContents().size(); i++) same = bits(h.GetBinContents()[i], w.GetBinContents()[i]) || (!names && h.GetBinContents()[i] == w.GetBinContents()[i]);
  MC_CHECK(same, what + ": contents", vstr(h.GetBinContents()) << " expected " << vstr(w.GetBinContents()));
}
static Histogram hist(const AxisCollection &a, int pattern) { Histogram h(a); for (size_t i = 0; i < h.GetNBins(); i++) h.SetBinContent(i, value(pattern, i)); return h; }
MC_SCENARIO(histograms) {
  int dims = 1 + choose(3, "dims"), scheme = choose(7, "names"), bins = choose(3, "bins"), pattern = choose(4, "values"); bool uneven = flip("uneven"); Histogram h = hist(axes(dims, scheme, bins, uneven), pattern), was = h; std::string f = scratch() + "/h.h5"; MC_OP(dims << " dimensions, names " << scheme);
  if (flip("something there already")) IO::SaveHistogram(hist(axes(2, 0, 1, true), 2), f);
  IO::SaveHistogram(h, f); check(h, was, "the histogram saved"); Histogram l = IO::LoadHistogram(f); check(l, was, "loaded histogram"); IO::SaveHistogram(l, f); check(IO::LoadHistogram(f), was, "saved again");
  l.Fill(VD(dims, -0.5)); check(IO::LoadHistogram(f), was, "after changing the loaded one"); state(Hash().b(dims).b(scheme).b(bins).b(pattern).b(uneven).h);
}
MC_SCENARIO(empty_histogram) { Histogram h; std::string f = scratch() + "/e.h5"; int o = choose(2, "made"); if (o) h = Histogram(AxisCollection()); Histogram l; bool refused = throwsA<IOError>([&] { IO::SaveHistogram(h, f); l = IO::LoadHistogram(f); }); if (!refused) MC_CHECK(l.GetNDims() == 0 && l.GetBinContents() == h.GetBinContents(), "histogram without axes", ""); state(o); }
MC_SCENARIO(refused_histograms) {
  std::string f = scratch() + "/rh.h5"; Histogram old = hist(axes(1, 0, 1, false), 1); IO::SaveHistogram(old, f); bool latex = flip("latex"); int which = choose(2, "axis"); AxisCollection a; for (int i = 0; i < 2; i++) { std::string bad = i == which ? "p:q" : "r"; a.AddAxis(BinAxis(latex ? MC_STR("n" << i) : bad, 0, 1, 2, latex ? bad : "l")); }
  MC_CHECK(throwsA<IOError>([&] { IO::SaveHistogram(hist(a, 1), f); }), "axis names that can't be saved accepted", (latex ? "latex " : "") << which); check(IO::LoadHistogram(f), old, "what was there before");
  MC_CHECK(throwsA<IOError>([&] { IO::SaveHistogram(old, scratch() + "/nowhere/x.h5"); }) && throws([&] { IO::SaveHistogram(old, scratch() + "/x.txt"); }), "histogram written to nowhere", ""); MC_CHECK(throws([&] { IO::SaveHistogram(hist(axes(3, 0, 1, false), 1), scratch() + "/x.root"); }), "three dimensions to ROOT accepted", ""); state(Hash().b(latex).b(which).h);
}
// conversion to and from the ROOT histograms
MC_SCENARIO(root_histograms) {
  int dims = 1 + choose(3, "dims"), bins = choose(3, "bins"), pattern = choose(3, "values"); bool uneven = flip("uneven"), pdf = flip("distribution"); Histogram h = hist(axes(dims, 0, bins, uneven), pattern); BinnedED d("d", h); std::string f = scratch() + "/h.root"; Histogram b; MC_OP(dims << " dimensions");
  for (int w = 1; w <= 3; w++) if (w != dims) MC_CHECK(throwsA<DimensionError>([&] { if (w == 1) DistTools::ToTH1D(h); if (w == 2) DistTools::ToTH2D(h); if (w == 3) DistTools::ToTH3D(h); }), "dimension not refused", dims << " to " << w);
  if (dims == 1) { TH1D r = pdf ? DistTools::ToTH1D(d) : DistTools::ToTH1D(h); b = DistTools::ToHist(r); TH1D w = pdf ? DistTools::ToTH1D(d, true) : DistTools::ToTH1D(h, true); for (size_t i = 0; i < h.GetNBins(); i++) MC_CHECK(bits(w.GetBinContent(i + 1), h.GetBinContent(i) / (h.GetAxes().GetAxis(0).GetBinHighEdge(i) - h.GetAxes().GetAxis(0).GetBinLowEdge(i))) || close(w.GetBinContent(i + 1), h.GetBinContent(i) / h.GetAxes().GetAxis(0).GetBinWidth(i)), "width correction", i); MC_CHECK(std::string(r.GetXaxis()->GetTitle()) == h.GetAxes().GetAxis(0).GetLatexName(), "title", ""); }
  if (dims == 2) b = DistTools::ToHist(pdf ? DistTools::ToTH2D(d) : DistTools::ToTH2D(h)); if (dims == 3) b = DistTools::ToHist(pdf ? DistTools::ToTH3D(d) : DistTools::ToTH3D(h)); check(b, h, "there and back", false);
  if (dims < 3) { IO::SaveHistogram(h, f, "nm"); TStubHist &s = TStubHist::Saved()[f]; MC_CHECK(std::string(s.GetName()) == "nm", "name of the saved ROOT histogram", s.GetName()); for (size_t i = 0; i < h.GetNBins(); i++) { auto u = h.UnpackIndices(i); double c = dims == 1 ? s.GetBinContent(u[0] + 1) : s.GetBinContent(u[0] + 1, u[1] + 1); MC_CHECK(bits(c, h.GetBinContent(i) + 0.) || c == h.GetBinContent(i), "content of the saved ROOT histogram", i); } }
  state(Hash().b(dims).b(bins).b(pattern).b(uneven).h);
}
// trees as ROOT hands them out
MC_SCENARIO(trees) {
  int nObs = 1 + choose(3, "observables"), n = choose(4, "events"); bool tuple = flip("ntuple"); std::string f = "mem" ; VN names = namesOf(0, nObs); auto rows = rowsOf(nObs, n, 1); stubStore().clear();
  { TFile t(f.c_str(), "RECREATE"); if (tuple) { TNtuple nt("t", "", nObs == 1 ? "x0" : nObs == 2 ? "x0:x1" : "x0:x1:x2"); for (auto &r : rows) { std::vector<float> v(r.begin(), r.end()); nt.Fill(v.data()); } nt.Write(); } else { TTree tr("t", ""); VD v(nObs); for (int i = 0; i < nObs; i++) tr.Branch(names[i].c_str(), &v[i], (names[i] + "/D").c_str()); for (auto &r : rows) { v = r; for (int i = 0; i < nObs; i++) tr.branches[i].p = &v[i]; tr.Fill(); } tr.Write(); } }
  if (!tuple) { ROOTTree t(f, "t"); check(t, names, rows, false, "tree"); MC_CHECK(throwsA<IOError>([&] { ROOTTree x(f, "u"); }) && throwsA<IOError>([&] { ROOTTree x("none", "t"); }) && throwsA<IOError>([&] { ROOTNtuple x(f, "t"); }), "tree: what is missing is refused", ""); IO::SaveDataSet(t, scratch() + "/t.h5"); std::unique_ptr<OXSXDataSet> c(IO::LoadDataSet(scratch() + "/t.h5")); check(*c, names, rows, false, "copied from a tree"); }
  else { ROOTNtuple t(f, "t"), u(f, "t"); check(t, names, rows, true, "ntuple"); if (n > 1) { Event a = t.GetEntry(0), b = u.GetEntry(1), c = t.GetEntry(1); MC_CHECK(a.GetDatum("x0") == (float)rows[0][0] && bits(b.GetData(), c.GetData()), "events of an ntuple change", ""); } }
  state(Hash().b(nObs).b(n).b(tuple).h);
}
// files that were not written here
static void intAtt(H5::H5Object &o, const char *n, long v, int type) { H5::DataSpace s(H5S_SCALAR); if (type == 0) { int x = v; o.createAttribute(n, H5::PredType::NATIVE_INT, s).write(H5::PredType::NATIVE_INT, &x); } else if (type == 1) { long x = v; o.createAttribute(n, H5::PredType::NATIVE_LONG, s).write(H5::PredType::NATIVE_LONG, &x); } else { double x = v; o.createAttribute(n, H5::PredType::NATIVE_DOUBLE, s).write(H5::PredType::NATIVE_DOUBLE, &x); } }
static void strAtt(H5::H5Object &o, const char *n, const std::string &v) { H5::StrType t(H5::PredType::C_S1, v.size() + 1); o.createAttribute(n, t, H5::DataSpace(H5S_SCALAR)).write(t, v); }
static void listAtt(H5::H5Object &o, const char *n, const VD &v, int rank) { hsize_t d[2] = {v.size(), 1}; H5::DataSpace s(rank, d); o.createAttribute(n, H5::PredType::NATIVE_DOUBLE, s).write(H5::PredType::NATIVE_DOUBLE, v.data()); }
static void notRead(std::function<void()> load, const std::string &what) {
  std::string out; int r = isolated([&] { try { load(); } catch (const std::exception &) { return std::string("exception"); } catch (...) { return std::string("something else thrown"); } return std::string("loaded"); }, &out);
  MC_CHECK(r == 0 && out == "exception", what + (r == 2 ? ": crash" : r == 3 ? ": hang" : out == "loaded" ? ": read" : ": not refused with an exception"), out);
}
MC_SCENARIO(foreign_data_sets) {
  std::string f = scratch() + "/f.h5"; int name = choose(2, "name of the list"), rank = 1 + choose(3, "rank") % 3, nData = choose(7, "values"), obs = choose(6, "observables") - 1, names = choose(4, "names") , type = choose(3, "type"); if (rank != 1 && (obs != 2 || names != 2 || type)) prune(); if (name && (rank != 1 || type || obs != 2)) prune();
  { H5::H5File h(f, H5F_ACC_TRUNC); hsize_t d[3] = {(hsize_t)nData, 1, 1}; H5::DataSpace s(rank, d); H5::DataSet t = h.createDataSet(name ? "other" : "observations", H5::PredType::NATIVE_DOUBLE, s); VD v; for (int i = 0; i < nData; i++) v.push_back(i + 0.5); if (nData) t.write(v.data(), H5::PredType::NATIVE_DOUBLE); if (obs >= 0) intAtt(t, "n_observables", obs, type); VN n = {"", "a", "a:b", "a:b:c"}; if (names || obs != 4) strAtt(t, "observed_quantities", n[names]); }
  bool noNames = names == 0 && obs == 4; bool ok = !name && rank == 1 && obs >= 0 && !noNames && (nData == 0 || (obs > 0 && nData % obs == 0 && obs == (names ? names : 1))); MC_OP(nData << " values " << obs << " observables names " << names << " rank " << rank);
  if (!ok) notRead([&] { delete IO::LoadDataSet(f); }, "inconsistent data set file"); else { std::unique_ptr<OXSXDataSet> l(IO::LoadDataSet(f)); MC_CHECK(l->GetNEntries() == (obs ? nData / obs : 0) && (!nData || l->GetEntry(0).GetDatum(0) == 0.5), "consistent data set file", ""); }
  state(Hash().b(nData).b(obs).b(names).b(rank).b(name).h);
}
MC_SCENARIO(foreign_histograms) {
  std::string f = scratch() + "/fh.h5"; int fault = choose(14, "fault"), dims = 1 + choose(2, "dims"); int nData = dims == 1 ? 2 : 4; int type = fault == 13 ? 1 : 0;
  { H5::H5File h(f, H5F_ACC_TRUNC); hsize_t d[2] = {(hsize_t)(fault == 1 ? nData + 1 : fault == 2 ? nData - 1 : nData), 1}; H5::DataSpace s(fault == 3 ? 2 : 1, d); H5::DataSet t = h.createDataSet(fault == 4 ? "other" : "histogram", H5::PredType::NATIVE_DOUBLE, s); VD v(nData + 2, 1.5); t.write(v.data(), H5::PredType::NATIVE_DOUBLE);
    std::string n = dims == 1 ? "a" : "a:b"; if (fault != 5) strAtt(t, "axis_names", fault == 6 ? n + ":z" : n); if (fault != 7) strAtt(t, "axis_latex_names", fault == 8 ? "" : n); if (fault != 9) intAtt(t, "n_dims", dims, type); intAtt(t, "n_bins", nData, type);
    for (int i = 0; i < dims; i++) { listAtt(t, MC_STR(i << "_lows").c_str(), VD{0, 1}, 1); if (!(fault == 10 && i + 1 == dims)) listAtt(t, MC_STR(i << "_highs").c_str(), fault == 11 ? VD{1} : VD{1, 2}, fault == 12 ? 2 : 1); } }
  MC_OP("fault " << fault); if (fault == 0 || fault == 13 || (fault == 8 && dims == 1)) { Histogram l = IO::LoadHistogram(f); MC_CHECK(l.GetBinContents() == VD(nData, 1.5) && l.GetNDims() == (unsigned)dims, "consistent histogram file", ""); } else notRead([&] { IO::LoadHistogram(f); }, "inconsistent histogram file"); state(Hash().b(fault).b(dims).h);
}
MC_SCENARIO(truncated_files) {   // a file of which only the beginning reached the disk, at every length
  bool h = flip("histogram"); static std::string whole[2]; std::string f = scratch() + "/t.h5"; if (whole[h].empty()) { if (h) IO::SaveHistogram(hist(axes(2, 0, 1, true), 1), f); else IO::SaveDataSet(data(VN{"x", "y"}, rowsOf(2, 5, 1)), f); std::ifstream i(f, std::ios::binary); whole[h].assign(std::istreambuf_iterator<char>(i), {}); }
  size_t pages = whole[h].size() / 16 + 1, n = choose((int)pages, "page") * 16 + (thorough() ? choose(16, "byte") : 0); if (n >= whole[h].size()) prune(); { std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write(whole[h].data(), n); }
  MC_OP("first " << n << " of " << whole[h].size() << " bytes"); auto load = [&] { if (h) IO::LoadHistogram(f); else delete IO::LoadDataSet(f); }; bool thrown = false, other = false; try { load(); } catch (const std::exception &) { thrown = true; } catch (...) { other = true; } MC_CHECK(thrown && !other, "truncated file read", n << " of " << whole[h].size()); state(Hash().b(h).b(n).h);
}
MC_SCENARIO(no_file) {
  int k = choose(4, "kind"); std::string f = scratch() + "/n.h5"; unlink(f.c_str()); if (k == 1) { std::ofstream o(f); } if (k == 2) { std::ofstream o(f); for (int i = 0; i < 3000; i++) o << "text\n"; } if (k == 3) f = scratch();
  MC_CHECK(throwsA<IOError>([&] { delete IO::LoadDataSet(f); }), "data set from no such file", k); MC_CHECK(throwsA<IOError>([&] { IO::LoadHistogram(f); }), "histogram from no such file", k); LazyOXSXDataSet z(f); for (int i = 0; i < 2; i++) MC_CHECK(throws([&] { z.GetNEntries(); }) && throws([&] { z.GetEntry(0); }) && throws([&] { z.GetObservableNames(); }), "lazy data set from no such file", k); unlink((scratch() + "/n.h5").c_str());
  if (k < 3) { IO::SaveDataSet(data(VN{"x"}, {{4}}), f); MC_CHECK(z.GetNEntries() == 1 && z.GetEntry(0).GetDatum("x") == 4, "lazy data set once the file is there", ""); unlink(f.c_str()); } state(k);
}
// several lazy data sets over a few files, used in turn
MC_SCENARIO_SPLIT(lazy, 3) {
  static const VN names[3] = {{"x", "y"}, {"y"}, {}}; static const std::vector<VD> rows[3] = {{{1, 2}, {3, 4}}, {{5}, {6}, {7}}, {}}; static std::string files[3];
  if (files[0].empty()) for (int i = 0; i < 3; i++) { files[i] = scratch() + MC_STR("/lz" << i << ".h5"); IO::SaveDataSet(data(names[i], rows[i]), files[i]); }
  const int N = 3; std::unique_ptr<LazyOXSXDataSet> z[N]; int of[N]; for (int i = 0; i < N; i++) { of[i] = i == 2 ? 0 : i; z[i].reset(new LazyOXSXDataSet(files[of[i]])); }
  struct Held { std::unique_ptr<Event> e; int of, i, from; } held; held.of = -1; int n = tier(3, 4);
  for (int k = 0; k < n; k++) {
    int s = choose(N, "which"), o = choose(7, "op"); if (o == 6) { int t = choose(N, "source"); if (t == s && !z[s]) prune(); if (!z[t] || !z[s]) prune(); MC_OP("assign " << t << " to " << s); *z[s] = *z[t]; of[s] = of[t]; if (held.of >= 0 && held.from == s) held.of = -1; continue; }
    if (!z[s]) { if (o != 5) prune(); int t = choose(N, "source"); if (!z[t]) prune(); MC_OP("copy " << t << " to " << s); z[s].reset(new LazyOXSXDataSet(*z[t])); of[s] = of[t]; continue; }
    const VN &nm = names[of[s]]; auto &rw = rows[of[s]]; MC_OP("lazy " << s << " op " << o);
    switch (o) {
      case 0: MC_CHECK(z[s]->GetNEntries() == rw.size() && z[s]->GetObservableNames() == nm, "lazy: number of events", ""); break;
      case 1: check(*z[s], nm, rw, false, "lazy data set"); break;
      case 2: { if (rw.empty()) prune(); int i = rw.size() - 1; held.e.reset(new Event(z[s]->GetEntry(i))); held.of = of[s]; held.i = i; held.from = s; break; }
      case 3: z[s]->Close(); break;
      case 4: MC_CHECK(z[s]->GetNObservables() == (rw.empty() ? 0 : rw[0].size()), "lazy: number of observables", ""); break;
      case 5: z[s].reset(); if (held.of >= 0 && held.from == s) held.of = -1; break;      // events need their data set
    }
    if (held.of >= 0) { MC_CHECK(bits(held.e->GetData(), rows[held.of][held.i]) && held.e->GetObservableNames() == names[held.of] && held.e->GetDatum("y") == rows[held.of][held.i].back(), "an event of a lazy data set changed", ""); }
  }
  for (int s = 0; s < N; s++) if (z[s]) check(*z[s], names[of[s]], rows[of[s]], false, "lazy data set at the end"); Hash h; for (int s = 0; s < N; s++) h.b(z[s] ? of[s] + 1 : 0); h.b(held.of + 1); state(h.h);
}

// fit results saved as text hold what they show, every parameter with its value to the precision asked for
MC_SCENARIO(results_as_text) {
  FitResult r; ParameterDict p; static const VD vals = {0, 1.25, -3, 123456.789, 1e-12, 2. / 3}; static const VN names = {"a", "some-parameter_name", "a parameter with a name longer than the column"}; int n = choose(4, "parameters"); for (int i = 0; i < n; i++) p[names[i]] = vals[choose((int)vals.size(), "value")]; int prec = pick(std::vector<int>{0, 3, 6, 17}, "precision"); r.SetBestFit(p); if (prec) r.SetPrintPrecision(prec); else prec = (int)r.GetPrintPrecision();
  std::string f = scratch() + "/result.txt"; if (flip("already there")) { std::ofstream o(f); for (int i = 0; i < 500; i++) o << "old\n"; } MC_OP("save " << mstr(p) << " precision " << prec); r.SaveAs(f); std::ifstream in(f); std::stringstream ss; ss << in.rdbuf(); std::string text = ss.str(); in.close(); unlink(f.c_str());
  MC_CHECK(text.find("old") == std::string::npos, "text: old content left", ""); std::map<std::string, double> got; std::stringstream ls(text.substr(std::min(text.size(), text.find("Best Fit Values")))); std::string line; while (std::getline(ls, line)) { size_t t = line.find('\t'); if (t == std::string::npos) continue; size_t b = line.find_first_not_of(' '); got[line.substr(b, t - b)] = std::strtod(line.c_str() + t, 0); }
  MC_CHECK(got.size() == p.size(), "text: number of parameters", text); for (auto &x : p) { MC_CHECK(got.count(x.first), "text: parameter missing", x.first << " in " << text); double rel = 0.5001 * std::pow(10., 1 - prec); MC_CHECK(std::fabs(got[x.first] - x.second) <= rel * std::fabs(x.second) + 1e-300, "text: value", x.first << " " << str(got[x.first]) << " expected " << str(x.second)); }
  std::string shown = r.AsString(); auto body = [](const std::string &t) { size_t b = t.find("Best Fit"); return b == std::string::npos ? t : t.substr(b); }; MC_CHECK(body(text) == body(shown), "text: saved and shown differ", ""); state(Hash().md(p).b(prec).h);
}
