#include "mc.h"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <iostream>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <filesystem>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace mc {
namespace {
struct Scenario { std::string name; void (*fn)(); int split; };
std::vector<Scenario> &scenarios() { static std::vector<Scenario> s; return s; }

struct Level { int n, taken; const char *label; };
std::vector<Level> stack_;      // choice sequence of the current execution
size_t pos_ = 0;                // next choice
size_t diverge_ = 0;            // choices before this one repeat the previous execution
bool replayMode_ = false;
std::vector<int> replayChoices_;
bool thorough_ = false;
uint64_t seed_ = 1;
int workers_ = 1, worker_ = 0, split_ = 2;
std::string curScenario_;
std::vector<std::string> trace_;
uint64_t transitions_ = 0, execTransitions_ = 0;
std::unordered_set<uint64_t> states_;
bool statesCapped_ = false;
std::vector<uint64_t> execStates_;
std::string outPath_, scratch_;
uint64_t executions_ = 0;
double hangLimit_ = 20;
std::set<std::string> known_;
bool inChild_ = false;

struct Viol { std::string scenario, sig, msg, kind; std::vector<int> choices; std::vector<std::string> labels, trace; uint64_t count; };
std::vector<Viol> viols_;
struct Sample { std::string scenario; std::vector<std::string> trace; };
std::vector<Sample> samples_;

std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
template <class T> std::string jlist(const std::vector<T> &v);
template <> std::string jlist(const std::vector<std::string> &v) {
  std::string s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += jstr(v[i]); } return s + "]";
}
template <> std::string jlist(const std::vector<int> &v) {
  std::string s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += std::to_string(v[i]); } return s + "]";
}
std::vector<int> choices() { std::vector<int> c; for (size_t i = 0; i < pos_ && i < stack_.size(); i++) c.push_back(stack_[i].taken); return c; }
std::vector<std::string> labels() { std::vector<std::string> c; for (size_t i = 0; i < pos_ && i < stack_.size(); i++) c.push_back(std::string(stack_[i].label) + "=" + std::to_string(stack_[i].taken) + "/" + std::to_string(stack_[i].n)); return c; }
std::string violJson(const Viol &v) {
  return "{\"scenario\":" + jstr(v.scenario) + ",\"sig\":" + jstr(v.sig) + ",\"msg\":" + jstr(v.msg) + ",\"kind\":" + jstr(v.kind) +
         ",\"count\":" + std::to_string(v.count) + ",\"choices\":" + jlist(v.choices) + ",\"labels\":" + jlist(v.labels) + ",\"trace\":" + jlist(v.trace) + "}";
}
struct Stat { std::string name; uint64_t executions, transitions, states, pruned; bool complete; double wall; size_t maxDepth; };
std::vector<Stat> stats_;

void writeOut(const char *status) {
  if (outPath_.empty()) return;
  std::string tmp = outPath_ + ".tmp";
  FILE *f = fopen(tmp.c_str(), "w");
  if (!f) return;
  std::string s = "{\"status\":" + jstr(status) + ",\"scenarios\":[";
  for (size_t i = 0; i < stats_.size(); i++) {
    auto &t = stats_[i];
    char b[64]; snprintf(b, 64, "%.3f", t.wall);
    s += (i ? "," : "") + std::string("{\"name\":") + jstr(t.name) + ",\"executions\":" + std::to_string(t.executions) + ",\"transitions\":" + std::to_string(t.transitions) +
         ",\"states\":" + std::to_string(t.states) + ",\"pruned\":" + std::to_string(t.pruned) + ",\"max_depth\":" + std::to_string(t.maxDepth) + ",\"complete\":" + (t.complete ? "true" : "false") + ",\"wall\":" + b + "}";
  }
  s += "],\"violations\":[";
  for (size_t i = 0; i < viols_.size(); i++) s += (i ? "," : "") + violJson(viols_[i]);
  s += "],\"samples\":[";
  for (size_t i = 0; i < samples_.size(); i++) s += std::string(i ? "," : "") + "{\"scenario\":" + jstr(samples_[i].scenario) + ",\"trace\":" + jlist(samples_[i].trace) + "}";
  s += "]}\n";
  fwrite(s.data(), 1, s.size(), f);
  fclose(f);
  rename(tmp.c_str(), outPath_.c_str());
}
volatile sig_atomic_t dumping_ = 0;
void dumpCrash(const char *kind) {
  if (inChild_ || dumping_) return;
  dumping_ = 1;
  Viol v{curScenario_, kind, std::string(kind) + " while executing the trace", kind, choices(), labels(), trace_, 1};
  viols_.push_back(v);
  writeOut("crashed");
}
void onDeath() { dumpCrash("crash"); }
volatile uint64_t progress_ = 0, seenProgress_ = 0;
volatile double stuckFor_ = 0;
bool watching_ = false;
void onSignal(int s) {
  if (s == SIGALRM && !inChild_) {  // heartbeat once a second: is it still the same execution?
    if (!watching_ || progress_ != seenProgress_) { seenProgress_ = progress_; stuckFor_ = 0; return; }
    stuckFor_ = stuckFor_ + 1;
    if (stuckFor_ < hangLimit_) return;
  }
  dumpCrash(s == SIGALRM ? "hang" : "crash");
  _exit(s == SIGALRM ? 5 : 4);
}
void heartbeat() {
  struct itimerval t; memset(&t, 0, sizeof t);
  t.it_value.tv_sec = t.it_interval.tv_sec = 1;
  setitimer(ITIMER_REAL, &t, nullptr);
}
uint64_t prefixHash(size_t n) {
  Hash h; h.s(curScenario_);
  for (size_t i = 0; i < n; i++) h.b(stack_[i].taken);
  uint64_t x = h.h; x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; return x;
}
} // namespace

Reg::Reg(const char *name, void (*fn)(), int split) { scenarios().push_back({name, fn, split}); }
bool thorough() { return thorough_; }
bool fresh() { return replayMode_ || pos_ >= diverge_; }
uint64_t seed() { return seed_; }
const std::string &scratch() { return scratch_; }

int choose(int n, const char *label) {
  if (n <= 0) { fprintf(stderr, "mc: choice with no alternative: %s\n", label); _exit(3); }
  if (pos_ < stack_.size()) {
    Level &l = stack_[pos_];
    if (l.n != n || strcmp(l.label, label))
      { pos_++; fail("nondeterministic", "re-executing the same choices reached a different choice point: behaviour depends on earlier executions or on uninitialised memory"); }
    pos_++;
    if (!replayMode_ && (int)pos_ == split_ && workers_ > 1 && (int)(prefixHash(pos_) % workers_) != worker_) throw Pruned();
    return l.taken;
  }
  int t = 0;
  if (replayMode_ && pos_ < replayChoices_.size()) t = std::min(replayChoices_[pos_], n - 1);
  stack_.push_back({n, t, label});
  pos_++;
  if (!replayMode_ && (int)pos_ == split_ && workers_ > 1 && (int)(prefixHash(pos_) % workers_) != worker_) throw Pruned();
  return t;
}
void op(const std::string &w) { transitions_++; execTransitions_++; trace_.push_back(w); }
void state(uint64_t h) { execStates_.push_back(h); }
void fail(const std::string &sig, const std::string &msg) { throw Fail{sig, msg}; }
void prune() { throw Pruned(); }

std::string str(double v) { char b[40]; snprintf(b, 40, "%.12g", v); return b; }
Hash &Hash::d(double v) {
  if (v == 0) v = 0;
  char buf[40]; snprintf(buf, 40, "%.10g", v);
  if (!strcmp(buf, "-0")) return s("0");
  return s(buf);
}

int isolated(const std::function<std::string()> &f, std::string *out, double limit) {
  int p[2];
  if (pipe(p)) { perror("pipe"); _exit(3); }
  fflush(stdout);
  pid_t c = fork();
  if (c < 0) { perror("fork"); _exit(3); }
  if (c == 0) {
    inChild_ = true;
    ::close(p[0]);
    signal(SIGALRM, SIG_DFL);
    int dn = open("/dev/null", O_WRONLY); dup2(dn, 2);
    alarm((unsigned)limit + 1);
    std::string r; int rc = 0;
    try { r = f(); } catch (const Fail &x) { r = "check failed: " + x.sig + ": " + x.msg; rc = 1; } catch (const std::exception &e) { r = e.what(); rc = 1; } catch (...) { r = "unknown exception"; rc = 1; }
    if (r.size() > 3000) r.resize(3000);
    ssize_t w = write(p[1], r.data(), r.size()); (void)w;
    _exit(rc);
  }
  ::close(p[1]);
  std::string r; char b[4096]; ssize_t n;
  while ((n = read(p[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) r.append(b, n);
  ::close(p[0]);
  int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
  if (out) *out = r;
  if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? 3 : 2;
  if (WEXITSTATUS(st) == 0) return 0;
  if (WEXITSTATUS(st) == 1) return 1;
  return 2;
}

// run one execution; false if pruned
static bool runOne(const Scenario &s, Fail *failure, bool *failed) {
  diverge_ = stack_.size();
  pos_ = 0; trace_.clear(); execStates_.clear(); execTransitions_ = 0; *failed = false;
  progress_ = progress_ + 1; watching_ = true;
  bool pruned = false;
  try { s.fn(); }
  catch (const Fail &f) { *failure = f; *failed = true; }
  catch (const Pruned &) { pruned = true; }
  catch (const std::exception &e) { *failure = Fail{"unexpected exception", std::string("unexpected exception: ") + e.what()}; *failed = true; }
  watching_ = false;
  return !pruned;
}
} // namespace mc

using namespace mc;
int main(int argc, char **argv) {
  std::string only, statesPath, replay;
  double deadline = 1e9;
  std::vector<std::string> merge;
  bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { if (i + 1 >= argc) { fprintf(stderr, "missing value\n"); exit(3); } return argv[++i]; };
    if (a == "--worker") worker_ = std::stoi(next());
    else if (a == "--workers") workers_ = std::stoi(next());
    else if (a == "--tier") thorough_ = next() == "thorough";
    else if (a == "--seed") seed_ = std::stoull(next());
    else if (a == "--out") outPath_ = next();
    else if (a == "--states") statesPath = next();
    else if (a == "--scenario") only = next();
    else if (a == "--replay") { replayMode_ = true; replay = next(); }
    else if (a == "--deadline") deadline = std::stod(next());
    else if (a == "--hang") hangLimit_ = std::stod(next());
    else if (a == "--known") known_.insert(next());
    else if (a == "--list") list = true;
    else if (a == "--merge") { while (i + 1 < argc) merge.push_back(argv[++i]); }
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
  }
  if (list) { for (auto &s : scenarios()) printf("%s\n", s.name.c_str()); return 0; }
  if (!merge.empty()) {
    std::vector<uint64_t> all;
    for (auto &m : merge) {
      FILE *f = fopen(m.c_str(), "rb"); if (!f) continue;
      uint64_t b[1024]; size_t n; while ((n = fread(b, 8, 1024, f)) > 0) all.insert(all.end(), b, b + n);
      fclose(f);
    }
    std::sort(all.begin(), all.end());
    printf("%zu\n", (size_t)(std::unique(all.begin(), all.end()) - all.begin()));
    return 0;
  }
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(onDeath);
  { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr); }
  heartbeat();
  signal(SIGABRT, onSignal);
  if (!__sanitizer_set_death_callback) { signal(SIGSEGV, onSignal); signal(SIGFPE, onSignal); }
  char tmpl[] = "/tmp/mcscratch.XXXXXX";
  if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; }
  scratch_ = tmpl;
  struct Cleaner { std::string d; pid_t p; ~Cleaner() { if (getpid() == p && d.rfind("/tmp/mcscratch.", 0) == 0) { std::error_code e; std::filesystem::remove_all(d, e); } } } cleaner{scratch_, getpid()};
  // the library's own chatter is not ours
  int keep = dup(1);
  int dn = open("/dev/null", O_WRONLY);
  if (!getenv("MC_VERBOSE")) dup2(dn, 1);
  FILE *say = fdopen(keep, "w");

  auto t0 = std::chrono::steady_clock::now();
  auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };

  if (replayMode_) {
    std::stringstream ss(replay); std::string tok;
    while (std::getline(ss, tok, ',')) if (!tok.empty()) replayChoices_.push_back(std::stoi(tok));
    for (auto &s : scenarios()) {
      if (s.name != only) continue;
      curScenario_ = s.name; stack_.clear(); workers_ = 1;
      Fail f; bool failed; runOne(s, &f, &failed);
      stats_.push_back({s.name, 1, transitions_, 0, 0, true, elapsed(), pos_});
      for (auto &t : trace_) fprintf(say, "  %s\n", t.c_str());
      if (failed) {
        viols_.push_back({s.name, f.sig, f.msg, "check", choices(), labels(), trace_, 1});
        fprintf(say, "FAILED [%s] %s\n", f.sig.c_str(), f.msg.c_str());
        writeOut("done"); fclose(say); return 1;
      }
      fprintf(say, "held\n"); writeOut("done"); fclose(say); return 0;
    }
    fprintf(say, "no such scenario\n"); fclose(say); return 3;
  }

  bool stop = false;
  size_t unlisted = 0;
  for (auto &s : scenarios()) {
    if (!only.empty() && s.name != only) continue;
    if (stop) break;
    curScenario_ = s.name; split_ = s.split; stack_.clear();
    double sc0 = elapsed();
    Stat st{s.name, 0, 0, 0, 0, false, 0, 0};
    uint64_t sampleAt = 1;
    std::unordered_set<uint64_t> mine;
    bool done = false;
    while (!done) {
      Fail f; bool failed;
      uint64_t before = transitions_;
      bool ran = runOne(s, &f, &failed);
      bool owned = true;
      if (workers_ > 1 && pos_ < (size_t)split_) owned = (int)(prefixHash(pos_) % workers_) == worker_;
      bool foreign = !ran && workers_ > 1 && pos_ == (size_t)split_ && (int)(prefixHash(pos_) % workers_) != worker_;
      if (!owned || foreign) transitions_ = before;
      else {
        st.transitions += execTransitions_;
        st.maxDepth = std::max(st.maxDepth, pos_);
        for (uint64_t h : execStates_) if (mine.size() < 20000000) mine.insert(h);
        if (ran) { st.executions++; executions_++; } else st.pruned++;
        if (ran && !failed && st.executions == sampleAt && samples_.size() < 40) { samples_.push_back({s.name, trace_}); sampleAt = sampleAt * 40; }
      }
      if (failed) {
        bool isNew = true;
        for (auto &v : viols_) if (v.scenario == s.name && v.sig == f.sig) { v.count++; isNew = false; break; }
        if (isNew && viols_.size() < 60) {
          viols_.push_back({s.name, f.sig, f.msg, "check", choices(), labels(), trace_, 1});
          if (!known_.count(s.name + "|" + f.sig)) { unlisted++; writeOut("running"); }
        }
        if (f.sig == "nondeterministic") { stack_.resize(pos_); stop = true; }
        if (unlisted >= 6) stop = true;
      }
      // next choice sequence
      stack_.resize(std::min(stack_.size(), pos_));
      while (!stack_.empty() && stack_.back().taken + 1 >= stack_.back().n) stack_.pop_back();
      if (stack_.empty()) { done = true; st.complete = true; }
      else stack_.back().taken++;
      if (stop || elapsed() > deadline) { if (!done) st.complete = false; break; }
    }
    st.wall = elapsed() - sc0;
    st.states = mine.size();
    Hash sh; sh.s(s.name);
    for (uint64_t h : mine) states_.insert(h ^ sh.h);
    stats_.push_back(st);
    writeOut("running");
  }
  if (!statesPath.empty()) {
    FILE *f = fopen(statesPath.c_str(), "wb");
    for (uint64_t h : states_) fwrite(&h, 8, 1, f);
    fclose(f);
  }
  writeOut("done");
  for (auto &t : stats_) fprintf(say, "%-40s exec %llu trans %llu states %llu depth %zu pruned %llu %s %.1fs\n", t.name.c_str(), (unsigned long long)t.executions, (unsigned long long)t.transitions, (unsigned long long)t.states, t.maxDepth, (unsigned long long)t.pruned, t.complete ? "complete" : "INCOMPLETE", t.wall);
  for (auto &v : viols_) { fprintf(say, "FAILED %s [%s] x%llu %s  choices", v.scenario.c_str(), v.sig.c_str(), (unsigned long long)v.count, v.msg.c_str()); for (int c : v.choices) fprintf(say, " %d", c); fprintf(say, "\n"); for (auto &t : v.trace) fprintf(say, "      %s\n", t.c_str()); }
  fclose(say);
  return viols_.empty() ? 0 : 1;
}
