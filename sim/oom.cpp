// Scenario "oom": a history of text operations on a machine whose memory runs out and comes back. The simulator owns
// the allocator (operator new, malloc and its relatives, for the library, the C++ runtime and libc alike)
// and decides which allocations fail. Decides C12.
#include <dlfcn.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>

#include <locale.h>

#include <iostream>
#include <locale>
#include <new>
#include "records.hpp"

const char* scn_name = "oom";
const int scn_others = 0;
enum Op { READ, FMT, FAIL, HEAL, LOC };
const char* scn_ops[] = {"READ", "FMT", "FAIL", "HEAL", "LOC", nullptr};
// READ kind res want_stop : text | FMT writer res mjd units sep
// (last argument even: a call that met a failure is repeated at once when the failures are over)
// FAIL first len (allocations number first.. from here on fail, len of them; len < 0: until HEAL) | HEAL
// LOC thread c cxx: the locales of the thread, of the process and of C++ from here on

// ---------------------------------------------------------------- the allocator
static bool in_op;           // inside a library call
static i64 a_index;          // allocations made inside library calls in this run
static i64 f_from, f_to;     // failing range
static u64 fired;            // failures injected in the current call
enum { TBL = 1 << 14 };
static void* live[TBL];      // blocks allocated inside library calls and not yet freed
static i64 nlive;

static void track(void* p) {
  size_t i = ((size_t)p >> 4) * 0x9e3779b97f4a7c15ULL >> 50;
  for (int k = 0; k < TBL; ++k, i = (i + 1) & (TBL - 1)) if (!live[i] || live[i] == (void*)1) { live[i] = p; ++nlive; return; }
}
static void untrack(void* p) {
  if (!nlive) return;
  size_t i = ((size_t)p >> 4) * 0x9e3779b97f4a7c15ULL >> 50;
  for (int k = 0; k < TBL; ++k, i = (i + 1) & (TBL - 1)) { if (!live[i]) return; if (live[i] == p) { live[i] = (void*)1; --nlive; return; } }
}
static bool must_fail() {
  if (!in_op) return false;
  i64 k = a_index++;
  if (k >= f_from && k < f_to) { ++fired; return true; }
  return false;
}
// the process's allocator is the simulator's: the library, the C++ runtime and libc all allocate here
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
void* malloc(size_t n) {
  if (must_fail()) { errno = ENOMEM; return nullptr; }
  void* p = __libc_malloc(n);
  if (in_op && p) track(p);
  return p;
}
void* calloc(size_t a, size_t b) {
  if (must_fail()) { errno = ENOMEM; return nullptr; }
  void* p = __libc_calloc(a, b);
  if (in_op && p) track(p);
  return p;
}
void* realloc(void* q, size_t n) {
  if (must_fail()) { errno = ENOMEM; return nullptr; }
  if (q) untrack(q);
  void* p = __libc_realloc(q, n);
  if (in_op && p) track(p);
  return p;
}
void* memalign(size_t al, size_t n) {
  if (must_fail()) { errno = ENOMEM; return nullptr; }
  void* p = __libc_memalign(al, n);
  if (in_op && p) track(p);
  return p;
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** r, size_t al, size_t n) { void* p = memalign(al, n); if (!p) return ENOMEM; *r = p; return 0; }
void free(void* p) {
  if (p) untrack(p);
  __libc_free(p);
}
// glibc ends the process when it has no memory to note a thread-local destructor: not a failure to inject
int __cxa_thread_atexit_impl(void (*f)(void*), void* o, void* d) {
  static auto real = (int (*)(void (*)(void*), void*, void*))dlsym(RTLD_NEXT, "__cxa_thread_atexit_impl");
  bool was = in_op;
  in_op = false;
  int r = real(f, o, d);
  in_op = was;
  return r;
}
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new(size_t n, std::align_val_t a) { void* p = aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }

// ---------------------------------------------------------------- operations
enum { Q_OK, Q_THREW };
struct Out { int q = Q_THREW; Got g; bool bad_alloc = false; };
// the result text goes to a fixed buffer, so that comparing it needs no memory
struct Text { char b[256]; size_t n = 0; bool operator==(const Text& o) const { return n == o.n && !memcmp(b, o.b, n < 256 ? n : 255); } };
enum { MAXOPS = 80 };
struct Ref1 { Out o; Text t; bool kept; };  // what a step gives when memory is plentiful
struct Shm { Ref1 ref[MAXOPS]; u64 nref; u64 n; char cls[64], detail[4000]; u64 h, faults, checks, cnts[8]; };
static Shm* shm;
static Guard* guard;
// The locales the application has in force. A call that runs out of memory must leave them as it found them.
static const char* const LN[] = {"C", "de_DE.UTF-8", "tr_TR.UTF-8"};
enum { NL = 3 };
static locale_t tl[NL];
struct Grouped : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\1"; }
};
static std::locale* xl[2];
struct Around {  // what a call must leave alone
  locale_t t = uselocale((locale_t)0);
  const char* c = setlocale(LC_ALL, nullptr);
  const std::locale x;
  std::ios_base::fmtflags f = std::cout.flags(), e = std::cerr.flags();
  std::streamsize pr = std::cout.precision();
  std::ios_base::iostate st = std::cout.rdstate(), ex = std::cout.exceptions();
  const char* changed(const char* name) const {
    if (uselocale((locale_t)0) != t) return "the thread's locale";
    if (strcmp(setlocale(LC_ALL, nullptr), name)) return "the process's C locale";
    if (std::locale() != x) return "the global C++ locale";
    if (std::cout.flags() != f || std::cerr.flags() != e || std::cout.precision() != pr || std::cout.rdstate() != st || std::cout.exceptions() != ex) return "a standard stream";
    return nullptr;
  }
};
static char cname[512];
static void put_locales(int t, int c, int x) {
  uselocale(t < 0 ? LC_GLOBAL_LOCALE : tl[t]);
  setlocale(LC_ALL, LN[c]);
  std::locale::global(*xl[x]);
  strncpy(cname, setlocale(LC_ALL, nullptr), sizeof cname - 1);
}
void scn_init() {
  guard = new Guard;
  for (int i = 0; i < NL; ++i) {
    tl[i] = newlocale(LC_ALL_MASK, LN[i], (locale_t)0);
    if (!tl[i]) { fprintf(stderr, "locale %s unavailable\n", LN[i]); tl[i] = tl[0]; }
  }
  xl[0] = new std::locale(std::locale::classic());
  xl[1] = new std::locale(std::locale::classic(), new Grouped);
  shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
template <class S> static void fmt(int w, int sep, const ngpt::datetime<S>& d, Text& t) {
  in_op = true;
  std::string s = w == 0 ? (sep ? ngpt::strftime_ymd_hms(d, (char)sep) : ngpt::strftime_ymd_hms(d)) : w == 1 ? (sep ? ngpt::strftime_ymd_hmfs(d, (char)sep) : ngpt::strftime_ymd_hmfs(d)) : d.stringify();
  in_op = false;
  t.n = s.size();
  memcpy(t.b, s.data(), s.size() < 256 ? s.size() : 255);
}
template <class S> static bool fmt_kept(int w, int sep, i64 mjd, i64 u, Text& t, Out& o) {
  ngpt::datetime<S> d{ngpt::modified_julian_day{mjd}, S{u}};
  try {
    fmt(w, sep, d, t);
    o.q = Q_OK;
  } catch (std::bad_alloc&) { in_op = false; o.bad_alloc = true; } catch (...) { in_op = false; }
  in_op = false;
  return d.mjd().as_underlying_type() == mjd && d.sec_as_i() == u;
}
static Out run_op(const Step& s, Text& t, bool& kept) {
  Out o;
  kept = true;
  t.n = 0;
  memset(t.b, 0, sizeof t.b);
  fired = 0;
  if (s.op == READ) {
    const char* p = guard->put(s.s, true);
    int kind = (int)fmod_(s.a[0], NKIND), res = (int)fmod_(s.a[1], 3);
    errno = 0;
    try {
      in_op = true;
      o.g = call_reader(kind, res, p, s.a[2] & 1);
      in_op = false;
      o.q = Q_OK;
    } catch (std::bad_alloc&) { in_op = false; o.bad_alloc = true; } catch (...) { in_op = false; }
    return o;
  }
  int w = (int)fmod_(s.a[0], 3), r = (int)fmod_(s.a[1], 3), sep = (int)(s.a[4] & 255);
  i64 mjd = s.a[2] < MJD_LO ? MJD_LO : s.a[2] > MJD_HI ? MJD_HI : s.a[2], u = fmod_(s.a[3], UPD(r));
  kept = r == 0 ? fmt_kept<ngpt::seconds>(w, sep, mjd, u, t, o) : r == 1 ? fmt_kept<ngpt::milliseconds>(w, sep, mjd, u, t, o) : fmt_kept<ngpt::microseconds>(w, sep, mjd, u, t, o);
  return o;
}
static std::string describe(const Step& s) {
  static const char* const WN[] = {"strftime_ymd_hms", "strftime_ymd_hmfs", "stringify"};
  if (s.op == READ) return std::string(KIND_NAME[fmod_(s.a[0], NKIND)]) + "<" + RES_NAME[fmod_(s.a[1], 3)] + "> of " + shown(s.s.c_str());
  return std::string(WN[fmod_(s.a[0], 3)]) + "<" + RES_NAME[fmod_(s.a[1], 3)] + "> of (mjd " + std::to_string(s.a[2]) + ", " + std::to_string(s.a[3]) + ")";
}
static std::string shown_out(const Step& s, const Out& o, const Text& t) {
  if (o.q == Q_THREW) return o.bad_alloc ? "std::bad_alloc" : "an exception";
  return s.op == READ ? o.g.str() : shown(std::string(t.b, t.n < 255 ? t.n : 255));
}

// What every step gives while memory is plentiful.
static void reference(const Plan& p) {
  f_from = f_to = 0;
  u64 i = 0;
  for (auto& s : p.steps) {
    Ref1& r = shm->ref[i++];
    if (s.op == READ || s.op == FMT) r.o = run_op(s, r.t, r.kept);
  }
  shm->nref = i;
}

// Executes the plan and compares with the reference.
static void go(Ctx& c) {
  i64 leaked[2] = {0, 0};
  for (int round = 0; round < 2; ++round) {
    a_index = 0;
    f_from = f_to = 0;
    put_locales(-1, 0, 0);
    std::vector<size_t> waiting;
    i64 live0 = nlive;
    auto heal = [&] {
      f_from = f_to = 0;
      for (size_t i : waiting) {
        const Step& s = c.plan.steps[i];
        const Ref1& w = shm->ref[i];
        Text t;
        bool k;
        Out o = run_op(s, t, k);
        c.check(o.q == w.o.q && o.g == w.o.g && t == w.t && !o.bad_alloc && k, "retry", describe(s) + ": an allocation failed, and with memory back it gives " + shown_out(s, o, t) + ", expected " + shown_out(s, w.o, w.t));
        CNT("retried");
      }
      waiting.clear();
    };
    for (size_t i = 0; i < c.plan.steps.size(); ++i) {
      const Step& s = c.plan.steps[i];
      if (s.op == FAIL) {
        f_from = a_index + (s.a[0] < 0 ? 0 : s.a[0]);
        f_to = s.a[1] < 0 ? (1LL << 60) : f_from + s.a[1];
      } else if (s.op == HEAL) heal();
      else if (s.op == LOC) { put_locales((int)fmod_(s.a[0], NL + 1) - 1, (int)fmod_(s.a[1], NL), (int)fmod_(s.a[2], 2)); if (round == 0) { CNT("fault.locale_switched"); ++c.faults; } }
      else {
        const Ref1& w = shm->ref[i];
        Text t;
        bool k = true;
        i64 sf = f_from, si = a_index;
        Around around;
        Out o = run_op(s, t, k);
        u64 fr = fired;
        if (const char* ch = around.changed(cname)) { const std::string d = describe(s) + (fr ? " with a failed allocation" : "") + (o.q == Q_THREW ? " throws and" : "") + " leaves " + ch + " changed"; put_locales(-1, 0, 0); c.check(false, "left_changed", d); }
        if (round == 0) {
          CNT("calls");
          c.faults += fr;
          if (fr) { cnt("fault.allocation_failed", fr); CNT("calls_under_failure"); if (f_to > (1LL << 59)) CNT("calls_under_persistent_failure"); else if (fr > 1) CNT("calls_under_burst"); }
        }
        LAZY(what, describe(s) + (fr ? " with " + std::to_string(fr) + " failed allocation(s)" : std::string()));
        c.check(k && w.kept, "timestamp_changed", what + " changed the timestamp");
        if (o.q == Q_OK) {
          c.check(w.o.q == Q_OK && o.g == w.o.g && t == w.t, "wrong_result", what + " gives " + shown_out(s, o, t) + "; with enough memory " + shown_out(s, w.o, w.t));
        } else c.check(fr || w.o.q == Q_THREW, "threw_for_nothing", what + " throws although nothing failed");
        if (o.q == Q_THREW && round == 0) CNT("reported_by_exception");
        if (fr) {
          waiting.push_back(i);
          // a caller that retries at once, while the failures are over
          if (a_index >= f_to && s.a[5] == 0) {
            Text t3;
            bool k3;
            Out o3 = run_op(s, t3, k3);
            if (!fired) c.check(o3.q == w.o.q && o3.g == w.o.g && t3 == w.t && k3, "retry", what + ", called again gives " + shown_out(s, o3, t3) + ", expected " + shown_out(s, w.o, w.t));
          }
        }
        c.obs((u64)o.q * 2 + o.bad_alloc);
        c.obs(fr);
        c.sig(mix(mix((u64)s.op * 8 + (u64)fmod_(s.a[0], 6), (u64)fmod_(s.a[1], 3)), mix(fr > 3 ? 3 : fr, mix((u64)(a_index - si), (u64)(sf > si ? (sf - si > 40 ? 40 : sf - si) : 0) * 2 + (u64)o.q))));
      }
    }
    heal();
    put_locales(-1, 0, 0);
    leaked[round] = nlive - live0;
    if (!leaked[0]) break;
  }
  ++c.checks;
  if (leaked[0] > 0 && leaked[1] > 0) c.fail("leak", std::to_string(leaked[1]) + " allocation(s) made inside the library were never freed");
}

void scn_exec(Ctx& c) {
  for (auto& s : c.plan.steps) if (s.s.size() > 2000) return;
  if (c.plan.steps.size() > MAXOPS) return;
  memset(live, 0, sizeof live);
  nlive = 0;
  shm->nref = shm->n = 0;
  if (c.plan.seed % 16) { reference(c.plan); go(c); return; }
  // in a pristine process: whatever the library sets up on first use is set up while memory is short; the reference
  // comes from another process
  memset(shm->cls, 0, sizeof shm->cls);
  for (int who = 0; who < 2; ++who) {
    pid_t pid = fork();
    if (!pid) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      if (!who) { reference(c.plan); _exit(0); }
      try { go(c); } catch (Violation& v) { strncpy(shm->cls, v.cls.c_str(), 63); strncpy(shm->detail, v.detail.c_str(), 3999); }
      shm->h = c.h; shm->faults = c.faults; shm->checks = c.checks; shm->n = 1;
      _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!(who ? shm->n : shm->nref) || !WIFEXITED(st)) c.fail("terminated", "the process was terminated by signal " + std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : 0) + (who ? " while memory was short" : ""));
  }
  CNT("pristine_process_runs");
  c.h = shm->h; c.faults = shm->faults; c.checks = shm->checks;
  if (shm->cls[0]) throw Violation{shm->cls, shm->detail};
}

Plan scn_gen(const std::string& prop, u64 seed) {
  Plan p;
  p.prop = prop;
  p.seed = seed;
  Rng r(seed);
  auto add = [&](int op, std::initializer_list<i64> a, const std::string& t = "") {
    Step s;
    s.op = op;
    int i = 0;
    for (i64 v : a) s.a[i++] = v;
    s.s = t;
    p.steps.push_back(s);
  };
  int n = (int)r.range(2, 12);
  for (int i = 0; i < n; ++i) {
    int x = (int)r.below(10);
    if (x < 6) add(FAIL, {r.chance(2, 3) ? r.range(0, 5) : r.range(0, 40), r.chance(1, 2) ? 1 : r.chance(1, 2) ? r.range(2, 6) : -1});
    else if (x < 7) add(HEAL, {});
    if (r.chance(1, 10)) add(LOC, {(i64)r.below(NL + 1), (i64)r.below(NL), (i64)r.below(2)});
    int m = (int)r.range(1, 3);
    for (int j = 0; j < m; ++j) {
      if (r.chance(1, 2)) {
        int kind = r.chance(1, 4) ? K_MONTH : (int)r.below(5);
        Style st = rnd_style(r);
        if (kind == K_YOD_HMS) st = yod_style(st);
        std::string t = render(kind, rnd_fields(r), st);
        switch (r.below(6)) {
          case 0: t.resize(t.size() ? r.below(t.size()) : 0); break;
          case 1: if (!t.empty()) t[r.below(t.size())] = (char)r.range(32, 126); break;
          case 2: { static const char* const bad[] = {"2015-13-01", "2015-02-30 10:00:00", "99999999999999999999-01-01", "2015-12-30 12:09:1e999", "Foo", "Januaryfebruarymarch", "2015-Foo-01 00:00:00", "2015-12", "", "2015-367", "a fairly long line of text that is not a date at all, as a header line would be"}; t = bad[r.below(sizeof bad / sizeof *bad)]; break; }
          case 3: t += std::string(r.below(80), 'x'); break;
          default: break;
        }
        add(READ, {kind, (i64)r.below(3), (i64)r.below(2)}, t);
      } else {
        int res = (int)r.below(3);
        static const char seps[] = "-/.:_ ,;T";
        add(FMT, {(i64)r.below(3), res, rnd_mjd(r), r.chance(1, 5) ? 0 : r.range(0, UPD(res) - 1), r.chance(1, 3) ? 0 : (i64)seps[r.below(sizeof seps - 1)]});
      }
      p.steps.back().a[5] = (i64)r.below(2);
    }
  }
  return p;
}
