// Core of the deterministic simulator: PRNG, plans, event log, counters.
// One integer (the run seed) generates a plan; executing a plan is a pure function of the plan and of the
// code under test. Nothing here reads a clock, an address or any other source of nondeterminism.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

typedef long long i64;
typedef unsigned long long u64;

struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(seed) {}
  u64 next() {  // splitmix64
    u64 z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo) + 1); }
  bool chance(int num, int den) { return (int)below((u64)den) < num; }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
  // log-uniform magnitude in [0, 2^bits)
  i64 logmag(int bits) {
    int b = (int)below((u64)bits + 1);
    return b ? (i64)(next() >> (64 - b)) : 0;
  }
  template <class T, size_t N> const T& pick(const T (&a)[N]) { return a[below(N)]; }
};

inline u64 mix(u64 h, u64 v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  return h ^ (h >> 32);
}
inline u64 hstr(const char* s) {
  u64 h = 1469598103934665603ULL;
  for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ULL;
  return h;
}

struct Step {
  int op = 0;
  i64 a[6] = {0, 0, 0, 0, 0, 0};
  std::string s;
};
enum { OP_OTHER = 1000, OP_STATE };  // noise.hpp
struct Plan {
  std::string prop;
  u64 seed = 0;
  std::vector<Step> steps;
};

struct Violation {
  std::string cls, detail;
};

// ---- released memory ----
// What earlier calls leave on the stack is an input of code that reads an uninitialised variable: it is the plan's.
inline u64& dirt() { static u64 d = 0; return d; }
inline void dirt_of(u64 seed) { dirt() = seed & 3 ? (seed >> 8 & 255) * 0x0101010101010101ULL : seed & 4 ? ~0ULL : 0; }
template <int N = 2000> __attribute__((noinline)) void dirty_stack() {
  u64 b[N / 8];
  const u64 d = dirt();
  for (u64& x : b) x = d;
  asm volatile("" : : "r"(b) : "memory");
}

// ---- counters (per process, merged by the driver) ----
inline std::map<std::string, u64>& counters() {
  static std::map<std::string, u64> m;
  return m;
}
inline u64& counter(const char* n) { return counters()[n]; }
#define CNT(name)                          \
  do {                                     \
    static u64& c__ = counter(name);       \
    ++c__;                                 \
  } while (0)
inline void cnt(const std::string& n, u64 k = 1) { counters()[n] += k; }

struct Ctx {
  const Plan& plan;
  u64 h = 1;           // event log hash
  u64 faults = 0;      // faults that actually fired in this run
  u64 checks = 0;      // oracle evaluations
  double simtime = 0;  // simulated seconds covered
  bool verbose = false;
  std::unordered_set<u64>* sigs = nullptr;
  explicit Ctx(const Plan& p) : plan(p) {}
  bool is(const char* p) const { return plan.prop == p; }
  void obs(u64 v) {
    h = mix(h, v);
    if (verbose) fprintf(stderr, "  obs %lld\n", (i64)v);
  }
  void obs(const std::string& s) {
    h = mix(h, hstr(s.c_str()) ^ s.size());
    if (verbose) fprintf(stderr, "  obs \"%s\"\n", s.c_str());
  }
  void sig(u64 v) {
    if (sigs && sigs->size() < 2000000) sigs->insert(v);
  }
  [[noreturn]] void fail(const std::string& cls, const std::string& detail) const {
    throw Violation{plan.prop + "/" + cls, detail};
  }
  template <class F> void check_(bool ok, const char* cls, F detail) {
    ++checks;
    if (__builtin_expect(!ok, 0)) fail(cls, detail());
  }
};

// the description is only built when the check fails
#define check(ok, cls, ...) check_(ok, cls, [&] { return std::string(__VA_ARGS__); })

// a description built each time it is used, which is only in the detail of a failed check
template <class F> struct Lazy {
  F f;
  operator std::string() const { return f(); }
  friend std::string operator+(const std::string& a, const Lazy& b) { return a + b.f(); }
  friend std::string operator+(const Lazy& a, const std::string& b) { return a.f() + b; }
};
template <class F> Lazy<F> lazy(F f) { return {f}; }
#define LAZY(name, ...) const auto name = lazy([&] { return std::string(__VA_ARGS__); })

// ---- what a scenario provides ----
extern const char* scn_name;
extern const char* scn_ops[];  // op mnemonics, nullptr terminated
Plan scn_gen(const std::string& prop, u64 seed);
enum { OTHERS = 1, STATES = 2 };
extern const int scn_others;  // whether other callers' library calls, and their changes of the process's state, are scattered over the plans
inline void (*&state_reset())() { static void (*f)() = nullptr; return f; }  // undoes those changes
void scn_exec(Ctx& c);
void scn_init();  // once per process, before any run
