// Common runtime-monitoring harness: seeded RNG, case loop, verdict reporting.
#pragma once
#include <array>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unistd.h>
#include <vector>

namespace vf {

// ---- deterministic RNG, independent of the standard library's distributions
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  // [0,n)
  size_t below(size_t n) { return n == 0 ? 0 : (size_t)(next() % n); }
  // [a,b]
  long range(long a, long b) { return a + (long)below((size_t)(b - a + 1)); }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u(); }
  bool coin(double p = 0.5) { return u() < p; }
  double normal() {
    double a = u() + 1e-300, b = u();
    return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b);
  }
  template <class T> void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]);
  }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  return h ^ (h >> 33);
}

struct Violation : std::runtime_error {
  std::string key;
  Violation(const std::string& k, const std::string& m) : std::runtime_error(m), key(k) {}
};
// the case could not be judged (e.g. generator produced an input outside of the domain)
struct Skip : std::runtime_error {
  explicit Skip(const std::string& m) : std::runtime_error(m) {}
};

struct Ctx {
  Rng rng;
  uint64_t seed = 1;
  size_t caseId = 0;
  bool thorough = false;
  bool verbose = false;
  std::map<std::string, long long>* counters;
  std::string note; // description of the current input, for reports
  uint64_t sigv = 0;
  bool nontrivial = false;
  void count(const std::string& k, long long n = 1) { (*counters)[k] += n; }
  void sig(uint64_t v) { sigv = mix(sigv, v); nontrivial = true; }
};

inline void flatten(std::ostringstream&) {}
template <class A, class... R> void flatten(std::ostringstream& o, const A& a, const R&... r) {
  o << a;
  flatten(o, r...);
}
template <class... R> std::string str(const R&... r) {
  std::ostringstream o;
  o.precision(17);
  flatten(o, r...);
  return o.str();
}
template <class... R> [[noreturn]] void fail(const std::string& key, const R&... r) { throw Violation(key, str(r...)); }
template <class... R> void check(bool ok, const std::string& key, const R&... r) {
  if (!ok) fail(key, r...);
}
// |a-b| <= tol * max(1, scale)
template <class... R> void near(double a, double b, double tol, const std::string& key, const R&... r) {
  if (!(std::abs(a - b) <= tol)) fail(key, r..., " got ", a, " expected ", b, " tol ", tol);
}
// expects f() to throw a std::exception
template <class F, class... R> void throws(F f, const std::string& key, const R&... r) {
  bool threw = false;
  try {
    f();
  } catch (Violation&) {
    throw;
  } catch (std::exception&) {
    threw = true;
  }
  if (!threw) fail(key, r..., " (no exception raised)");
}
inline bool finite(double x) { return std::isfinite(x); }

typedef std::function<void(Ctx&)> CaseFn;

struct Suite {
  // weighted list of scenario families; case i runs family i % total in round-robin by weight
  struct Fam { std::string name; int weight; CaseFn fn; };
  std::vector<Fam> fams;
  std::map<std::string, CaseFn> probes; // known-finding probes
  void add(const std::string& n, int w, CaseFn f) { fams.push_back({n, w, f}); }
  void probe(const std::string& n, CaseFn f) { probes[n] = f; }
};

inline std::string oneLine(std::string s) {
  for (auto& c : s)
    if (c == '\n' || c == '\r') c = ' ';
  if (s.size() > 600) s = s.substr(0, 600) + "...";
  return s;
}

// usage: H --seed S --from A --to B [--thorough] [--fam NAME] [--verbose] | --probe NAME | --list
inline int run(Suite& S, int argc, char** argv) {
  uint64_t seed = 1;
  size_t from = 0, to = 1;
  bool thorough = false, verbose = false;
  std::string fam, probe;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--seed") seed = std::stoull(val());
    else if (a == "--from") from = std::stoull(val());
    else if (a == "--to") to = std::stoull(val());
    else if (a == "--case") { from = std::stoull(val()); to = from + 1; }
    else if (a == "--fam") fam = val();
    else if (a == "--probe") probe = val();
    else if (a == "--thorough") thorough = true;
    else if (a == "--verbose") verbose = true;
    else if (a == "--list") {
      for (auto& f : S.fams) std::cout << "FAM " << f.name << " " << f.weight << "\n";
      for (auto& f : S.probes) std::cout << "PROBE " << f.first << "\n";
      return 0;
    }
  }
  std::vector<size_t> sched;
  for (size_t k = 0; k < S.fams.size(); k++)
    for (int w = 0; w < S.fams[k].weight; w++) sched.push_back(k);
  { // fixed interleave
    Rng r(12345);
    r.shuffle(sched);
  }
  std::map<std::string, long long> counters;
  int bad = 0;
  auto runOne = [&](size_t i, const std::string& name, const CaseFn& fn) {
    Ctx c;
    uint64_t h = mix(mix(0x1234567, seed), i);
    for (char ch : name) h = mix(h, (unsigned char)ch);
    c.rng = Rng(h);
    c.seed = seed;
    c.caseId = i;
    c.thorough = thorough;
    c.verbose = verbose;
    c.counters = &counters;
    printf("CASE %zu %s\n", i, name.c_str());
    fflush(stdout);
    std::srand((unsigned)(h & 0x7fffffff));
    std::string key, msg;
    bool failed = false;
    try {
      fn(c);
    } catch (Violation& v) {
      failed = true;
      key = v.key;
      msg = v.what();
    } catch (Skip& s) {
      counters["skipped"]++;
      if (verbose) printf("SKIP %zu %s\n", i, oneLine(s.what()).c_str());
      return;
    } catch (std::exception& e) {
      failed = true;
      key = str("exception-", name);
      msg = str("unexpected exception ", typeid(e).name(), ": ", e.what());
    } catch (...) {
      failed = true;
      key = str("exception-", name);
      msg = "unexpected exception of unknown type";
    }
    counters["cases." + name]++;
    if (failed) {
      bad++;
      printf("FAIL case=%zu fam=%s key=%s msg=%s input=%s\n", i, name.c_str(), key.c_str(), oneLine(msg).c_str(), oneLine(c.note).c_str());
    } else if (c.nontrivial)
      printf("SIG %016llx\n", (unsigned long long)c.sigv);
    if (!failed && i - from < 3) printf("SAMPLE case %zu %s: %s\n", i, name.c_str(), oneLine(c.note).substr(0, 300).c_str());
    fflush(stdout);
  };
  if (!probe.empty()) {
    auto it = S.probes.find(probe);
    if (it == S.probes.end()) {
      printf("NOPROBE %s\n", probe.c_str());
      return 3;
    }
    runOne(0, probe, it->second);
  } else
    for (size_t i = from; i < to; i++) {
      size_t k = sched[i % sched.size()];
      if (!fam.empty()) {
        for (k = 0; k < S.fams.size(); k++)
          if (S.fams[k].name == fam) break;
        if (k == S.fams.size()) { printf("NOFAM\n"); return 3; }
      }
      runOne(i, S.fams[k].name, S.fams[k].fn);
    }
  for (auto& kv : counters) printf("STAT %s %lld\n", kv.first.c_str(), kv.second);
  printf("DONE\n");
  fflush(stdout);
  // skip static destruction noise but keep leak checks off: results are already reported
  return bad ? 10 : 0;
}
} // namespace vf
