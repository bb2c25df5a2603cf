// Common part of the replay harnesses: deterministic case generation, crash capture, reporting.
#pragma once
#include <algorithm>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <unistd.h>
#include <exception>

namespace h {
inline uint64_t seed = 1;
inline bool thorough = false;
inline std::string group;     // which family of cases is running
inline std::string cur;       // description of the case being run
inline long evals = 0;
inline std::unordered_set<uint64_t> seen;
inline long nontrivial = 0;
inline std::vector<std::string> samples;
inline std::map<std::string, long> groups;
inline std::string only;      // run only this group

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) {}
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  int below(int n) { return n <= 0 ? 0 : (int)((next() >> 33) % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(int pct) { return below(100) < pct; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below((int)v.size())]; }
};

inline std::string q(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
template <class T> std::string show(const T& x) { std::ostringstream o; o << x; return o.str(); }
inline std::string show(const std::string& x) { return q(x); }
template <class T> std::string show(const std::vector<T>& v) {
  std::string o = "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += show(T(v[i])); }
  return o + "]";
}

// start of one case: description (input in full), and whether it is a non-trivial one
inline void start(const std::string& d, bool nontriv) {
  cur = group + ": " + d;
  evals++;
  groups[group]++;
  if (nontriv) {
    uint64_t hsh = std::hash<std::string>()(cur);
    if (seen.insert(hsh).second) nontrivial++;
    if (samples.size() < 6 && (nontrivial == 1 || nontrivial == 20 || nontrivial == 100 || nontrivial % 997 == 0)) samples.push_back(cur.substr(0, 600));
  }
}
[[noreturn]] inline void fail(const std::string& why) {
  std::cout.flush();
  std::string o = "\nHARNESS-FAIL {\"case\":" + q(cur) + ",\"why\":" + q(why) + "}\n";
  (void)!write(1, o.data(), o.size());
  _exit(3);
}
inline void check(bool ok, const std::string& why) { if (!ok) fail(why); }
template <class A, class B> void eq(const A& got, const B& want, const std::string& what) {
  if (!(got == want)) fail(what + ": the code gives " + show(got) + ", expected " + show(want));
}
inline void onsig(int s) {
  static char buf[70000];
  int n = snprintf(buf, sizeof buf, "\nHARNESS-FAIL {\"case\":%s,\"why\":\"the program crashed with signal %d%s\"}\n", q(cur).substr(0, 60000).c_str(), s, s == SIGALRM ? " (no answer within the time limit)" : "");
  (void)!write(1, buf, n);
  _exit(3);
}
inline void init(int argc, char** argv) {
  if (getenv("VERIF_SEED")) seed = strtoull(getenv("VERIF_SEED"), 0, 10);
  if (getenv("VERIF_TIER")) thorough = !strcmp(getenv("VERIF_TIER"), "thorough");
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--thorough")) thorough = true;
    else only = argv[i];
  }
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, onsig);
  std::set_terminate([] {
    std::string w = "uncaught exception";
    try { if (std::current_exception()) std::rethrow_exception(std::current_exception()); }
    catch (const std::exception& e) { w += std::string(": ") + e.what(); } catch (...) {}
    fail(w);
  });
}
inline bool begin(const std::string& g) {
  if (!only.empty()) {  // comma-separated prefixes
    bool hit = false;
    std::istringstream in(only);
    for (std::string p; std::getline(in, p, ',');) if (g.rfind(p, 0) == 0) hit = true;
    if (!hit) return false;
  }
  group = g;
  return true;
}
inline int done() {
  std::cout.flush();
  std::string o = "\nHARNESS-OK {\"evaluations\":" + std::to_string(evals) + ",\"distinct_nontrivial\":" + std::to_string(nontrivial) + ",\"groups\":{";
  bool first = true;
  for (auto& g : groups) { if (!first) o += ","; first = false; o += q(g.first) + ":" + std::to_string(g.second); }
  o += "},\"samples\":" + show(samples) + "}\n";
  (void)!write(1, o.data(), o.size());
  return 0;
}
inline int N(int quick, int thor) { return thorough ? thor : quick; }
}  // namespace h
#define HCHECK(c, why) do { if (!(c)) h::fail(why); } while (0)
