// Scenario "ambient": one task of an application reads and formats dates while its other tasks fail numeric
// conversions, leave errno set, switch the C, thread and C++ locales, move the time zone and the wall clock, dirty the
// memory they release, and make long series of calls of their own. Decides C10 and C11.
// Each run executes the plan twice, each time in a forked pristine process: once with the other tasks, once without
// them (clean environment, operations in reverse order). Every operation must give the same in both.
#include <errno.h>
#include <fenv.h>
#include <locale.h>
#include <malloc.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <iomanip>
#include <iostream>
#include <locale>
#include <thread>
#include "records.hpp"
#include "noise.hpp"

const char* scn_name = "ambient";
const int scn_others = OTHERS;
enum Op { READ, FMT, ERRNO, NUM, CLOC, TLOC, CXX, ZONE, WALL, DIRTY, ENVIR, COUT, FPE, CALLER, SERIES };
const char* scn_ops[] = {"READ", "FMT", "ERRNO", "NUM", "CLOC", "TLOC", "CXX", "ZONE", "WALL", "DIRTY", "ENVIR", "COUT", "FPE", "CALLER", "SERIES", nullptr};
// READ kind res want_stop : text | FMT writer res mjd units sep
// ERRNO value | NUM kind (failing conversion) | CLOC locale category | TLOC locale | CXX locale
// ZONE time zone | WALL seconds since 1970 | DIRTY byte (what released stack and heap memory holds)
// ENVIR variable value (environment variables) | COUT kind (format flags of the standard streams)
// FPE flags (floating-point exception flags left raised)
// CALLER kind: from where later operations are called (0 plainly, 1 exception handler, 2 destructor during unwinding, 3 new thread)
// SERIES count reader-or-writer res mjd units : text, a task that makes many calls of one kind

static const char* const LN[] = {"C", "de_DE.UTF-8", "tr_TR.UTF-8", "tr_TR.ISO-8859-9", "fr_FR.UTF-8", "de_DE.ISO-8859-1"};
enum { NL = 6, NX = 8 };
static locale_t tl[NL];
static std::locale* xl[NX];
static const char* const XN[] = {"classic", "grouped+comma", "grouped by one", "decimal comma", "de_DE.UTF-8", "tr_TR.UTF-8", "fr_FR.UTF-8", "odd num_put"};
static const int CAT[] = {LC_ALL, LC_NUMERIC, LC_CTYPE, LC_TIME};

// the wall clock belongs to the simulator
static i64 wall = -1;  // the driver's own process keeps the real clock
static bool simulated = false;
extern "C" int clock_gettime(clockid_t k, struct timespec* ts) noexcept {
  if (!simulated) return (int)syscall(SYS_clock_gettime, k, ts);
  ts->tv_sec = (time_t)wall;
  ts->tv_nsec = 0;
  return 0;
}
extern "C" time_t time(time_t* t) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); tv->tv_sec = s.tv_sec; tv->tv_usec = s.tv_nsec / 1000; return 0; }
static const char* const EN[] = {"LANG", "LC_ALL", "LC_NUMERIC", "LC_TIME", "LC_CTYPE", "LANGUAGE", "POSIXLY_CORRECT", "SOURCE_DATE_EPOCH", "DATEMSK", "MALLOC_PERTURB_"};
static const char* const EV[] = {"de_DE.UTF-8", "tr_TR.UTF-8", "", "1"};
static const char* const ZN[] = {"UTC0", "EST5EDT", "<+14>-14", "CET-1CEST", "nonsense"};

struct Punct : std::numpunct<char> {
  char dp, ts; std::string g;
  Punct(char d, char t, std::string g_) : dp(d), ts(t), g(g_) {}
  char do_decimal_point() const override { return dp; }
  char do_thousands_sep() const override { return ts; }
  std::string do_grouping() const override { return g; }
};
struct OddPut : std::num_put<char> {
  iter_type do_put(iter_type o, std::ios_base&, char, double) const override { for (const char* p = "<double>"; *p; ++p) *o++ = *p; return o; }
  iter_type do_put(iter_type o, std::ios_base&, char, long) const override { for (const char* p = "<long>"; *p; ++p) *o++ = *p; return o; }
};

struct Shm { u64 n, cap; char b[1 << 20]; };
static Shm* shm;
static Guard* guard;

void scn_init() {
  guard = new Guard;
  shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < NL; ++i) {
    tl[i] = newlocale(LC_ALL_MASK, LN[i], (locale_t)0);
    if (!tl[i]) fprintf(stderr, "locale %s unavailable\n", LN[i]);
  }
  const std::locale& c = std::locale::classic();
  xl[0] = new std::locale(c);
  xl[1] = new std::locale(c, new Punct(',', '.', "\3"));
  xl[2] = new std::locale(c, new Punct('.', '\'', "\1"));
  xl[3] = new std::locale(c, new Punct(',', '.', ""));
  const int named[] = {1, 2, 4};
  for (int i = 0; i < 3; ++i) try { xl[4 + i] = new std::locale(LN[named[i]]); } catch (std::exception&) { xl[4 + i] = nullptr; }
  xl[7] = new std::locale(c, new OddPut);
}

static const int SERIES_LEN[] = {3, 17, 129, 260, 1030, 33000, 66000};
static void put(const std::string& s) {
  if (shm->n + s.size() + 1 >= sizeof shm->b) return;
  memcpy(shm->b + shm->n, s.data(), s.size());
  shm->n += s.size();
  shm->b[shm->n++] = '\x1f';
}
static std::string bad_series;
static std::string one(const Step& s) {
  dirty_stack<12000>();
  if (s.op == READ) {
    const char* p = guard->put(s.s.substr(0, 2000), true);
    try {
      return call_reader((int)fmod_(s.a[0], NKIND), (int)fmod_(s.a[1], 3), p, s.a[2] & 1).str();
    } catch (std::exception& e) {
      return "rejected";
    }
  }
  int w = (int)fmod_(s.a[0], 3), r = (int)fmod_(s.a[1], 3), sep = (int)(s.a[4] & 255);
  i64 mjd = s.a[2] < MJD_LO ? MJD_LO : s.a[2] > MJD_HI ? MJD_HI : s.a[2], u = fmod_(s.a[3], UPD(r));
  auto f = [&](auto d) -> std::string {
    if (w == 0) return sep ? ngpt::strftime_ymd_hms(d, (char)sep) : ngpt::strftime_ymd_hms(d);
    if (w == 1) return sep ? ngpt::strftime_ymd_hmfs(d, (char)sep) : ngpt::strftime_ymd_hmfs(d);
    return d.stringify();
  };
  try {
    ngpt::modified_julian_day m{mjd};
    if (r == 0) return f(ngpt::datetime<ngpt::seconds>{m, ngpt::seconds{u}});
    if (r == 1) return f(ngpt::datetime<ngpt::milliseconds>{m, ngpt::milliseconds{u}});
    return f(ngpt::datetime<ngpt::microseconds>{m, ngpt::microseconds{u}});
  } catch (std::exception& e) {
    return std::string("exception: ") + e.what();
  }
}
static int caller = 0;
static std::string called(const Step& s) {
  std::string o;
  switch (caller) {
    case 1: try { throw 1; } catch (int) { o = one(s); } return o;
    case 2: {
      struct Late { const Step& s; std::string& o; ~Late() { o = one(s); } };
      try { Late l{s, o}; throw 1; } catch (int) {}
      return o;
    }
    case 3: {  // a thread starts with the thread locale of the process and its own errno
      locale_t t = uselocale((locale_t)0);
      int e = errno;
      std::thread([&] { uselocale(t); errno = e; o = one(s); if (uselocale((locale_t)0) != t) o += " [thread locale changed]"; }).join();
      return o;
    }
    default: return one(s);
  }
}
// runs in a forked child
static void child(Ctx& c, bool clean) {
  const Plan& p = c.plan;
  simulated = true;
  wall = 1700000000;
  dirt() = 0;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  int n = (int)p.steps.size();
  for (int k = 0; k < n; ++k) {
    const Step& s = p.steps[(size_t)(clean ? n - 1 - k : k)];
    if (s.op == READ || s.op == FMT) {
      if (clean) { errno = 0; put(one(s)); continue; }
      std::string l0 = setlocale(LC_ALL, nullptr);
      locale_t t0 = uselocale((locale_t)0);
      std::locale x0;
      int e0 = errno;
      errno = e0;
      std::string o = called(s);
      int e1 = errno;
      o += bad_series;
      bad_series.clear();
      std::locale x1;
      if (l0 != setlocale(LC_ALL, nullptr)) o += " [C locale changed from " + l0 + "]";
      if (t0 != uselocale((locale_t)0)) o += " [thread locale changed]";
      if (!(x0 == x1)) o += " [C++ locale changed]";
      put(o);
      errno = e1;
      continue;
    }
    if (clean) continue;
    int e0 = errno;
    if (other(c, s)) { errno = e0; continue; }
    switch (s.op) {
      case ERRNO: e0 = (int)fmod_(s.a[0], 134); break;
      case NUM: {
        static const char* const t[] = {"1e999", "1e-400", "99999999999999999999999", "-99999999999999999999", "x", "0x1p9999"};
        int k2 = (int)fmod_(s.a[0], 6);
        if (k2 == 2 || k2 == 3) { volatile long v = strtol(t[k2], nullptr, 10); (void)v; }
        else { volatile double v = strtod(t[k2], nullptr); (void)v; }
        e0 = errno;
        break;
      }
      case CLOC: setlocale(CAT[fmod_(s.a[1], 4)], LN[fmod_(s.a[0], NL)]); break;
      case TLOC: { int k2 = (int)fmod_(s.a[0], NL + 1); if (k2 == NL) uselocale(LC_GLOBAL_LOCALE); else if (tl[k2]) uselocale(tl[k2]); break; }
      case CXX: { int k2 = (int)fmod_(s.a[0], NX); if (xl[k2]) std::locale::global(*xl[k2]); break; }
      case ZONE: setenv("TZ", ZN[fmod_(s.a[0], 5)], 1); tzset(); break;
      case WALL: wall = s.a[0]; break;
      case DIRTY: dirt() = (u64)(s.a[0] & 255) * 0x0101010101010101ULL; mallopt(M_PERTURB, (int)(s.a[0] & 255)); break;
      case ENVIR: if (fmod_(s.a[1], 5) == 4) unsetenv(EN[fmod_(s.a[0], 10)]); else setenv(EN[fmod_(s.a[0], 10)], EV[fmod_(s.a[1], 5)], 1); break;
      case COUT:
        for (std::ostream* o : {&std::cout, &std::cerr, &std::clog}) try { switch (fmod_(s.a[0], 6)) {
          case 0: *o << std::hex << std::showbase << std::uppercase; break;
          case 1: *o << std::setprecision(1) << std::scientific; break;
          case 2: *o << std::setfill('*') << std::setw(30) << std::left; break;
          case 3: o->setstate(std::ios::failbit); break;
          case 4: o->clear(); o->exceptions(std::ios::failbit | std::ios::badbit); break;
          default: o->imbue(*xl[1]); *o << std::showpos << std::oct;
        } } catch (std::exception&) {}
        break;
      case FPE: if (s.a[0]) feraiseexcept((int)s.a[0] & FE_ALL_EXCEPT); else feclearexcept(FE_ALL_EXCEPT); break;
      case CALLER: caller = (int)fmod_(s.a[0], 4); break;
      case SERIES: {
        Step q;
        q.op = s.a[1] < NKIND ? READ : FMT;
        q.a[0] = q.op == READ ? s.a[1] : s.a[1] - NKIND;
        q.a[1] = s.a[2]; q.a[2] = q.op == READ ? 1 : s.a[3]; q.a[3] = s.a[4];
        q.s = s.s;
        std::string first;
        int n2 = SERIES_LEN[fmod_(s.a[0], 7)];
        for (int i = 0; i < n2; ++i) {
          errno = e0;
          std::string o = one(q);
          if (!i) first = o;
          else if (o != first) { bad_series = "call " + std::to_string(i + 1) + " of a series gives " + o + ", the first gave " + first; break; }
        }
        break;
      }
    }
    errno = e0;
  }
}
static std::vector<std::string> run_child(Ctx& c, bool clean) {
  shm->n = 0;
  pid_t pid = fork();
  if (pid == 0) {
    child(c, clean);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  std::vector<std::string> v;
  std::string cur;
  for (u64 i = 0; i < shm->n; ++i) if (shm->b[i] == '\x1f') { v.push_back(cur); cur.clear(); } else cur += shm->b[i];
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) c.fail("crashed", std::string("the process ") + (WIFSIGNALED(st) ? "was killed by signal " + std::to_string(WTERMSIG(st)) : "exited with status " + std::to_string(WEXITSTATUS(st))) + (clean ? " in the clean environment" : " under the other tasks") + " after " + std::to_string(v.size()) + " operations");
  return v;
}

void scn_exec(Ctx& c) {
  std::vector<const Step*> ops;
  std::string amb[4];
  int changes = 0;
  for (auto& s : c.plan.steps) {
    if (s.op == READ || s.op == FMT) ops.push_back(&s);
    else if (s.op == OP_OTHER) { CNT("fault.other_calls_of_the_library"); ++c.faults; }
    else {
      ++changes;
      static const char* const fn[] = {"fault.errno_left_set", "fault.failed_conversion", "fault.C_locale_switched", "fault.thread_locale_switched", "fault.C++_locale_switched", "fault.time_zone_switched", "fault.wall_clock_stepped", "fault.released_memory_dirtied", "fault.environment_changed", "fault.stream_flags_changed", "fault.floating_point_flags_raised", "fault.called_from_handler_destructor_or_thread", "fault.series_of_other_calls"};
      cnt(fn[s.op - ERRNO]);
      ++c.faults;
    }
  }
  if (ops.empty()) return;
  std::vector<std::string> a, b;
  if (c.plan.seed & 1) { a = run_child(c, false); b = run_child(c, true); }
  else { b = run_child(c, true); a = run_child(c, false); }
  size_t n = ops.size();
  if (a.size() != n || b.size() != n) c.fail("crashed", "an operation did not return");
  // describe the environment an operation ran in
  std::string cl = "C", tlx = "process", xx = "classic", er = "0", rest;
  size_t i = 0;
  for (auto& s : c.plan.steps) {
    if (s.op == OP_OTHER) { rest += ", other calls of the library"; continue; }
    switch (s.op) {
      case CLOC: cl = std::string(LN[fmod_(s.a[0], NL)]); break;
      case TLOC: { int k = (int)fmod_(s.a[0], NL + 1); tlx = k == NL ? "process" : LN[k]; break; }
      case CXX: xx = XN[fmod_(s.a[0], NX)]; break;
      case ERRNO: er = std::to_string(fmod_(s.a[0], 134)); break;
      case NUM: er = "left by a failed conversion"; break;
      case ZONE: case WALL: case DIRTY: case ENVIR: case COUT: case FPE: case CALLER: case SERIES: rest += std::string(", ") + scn_ops[s.op] + " " + std::to_string(s.a[0]); break;
      default: {
        std::string what;
        if (s.op == READ) what = std::string(KIND_NAME[fmod_(s.a[0], NKIND)]) + "<" + RES_NAME[fmod_(s.a[1], 3)] + "> of " + shown(s.s);
        else { static const char* const WN[] = {"strftime_ymd_hms", "strftime_ymd_hmfs", "stringify"}; what = std::string(WN[fmod_(s.a[0], 3)]) + "<" + RES_NAME[fmod_(s.a[1], 3)] + "> of (mjd " + std::to_string(s.a[2]) + ", " + std::to_string(s.a[3]) + ")"; }
        c.obs(a[i]);
        if (c.is("C10") == (s.op == READ)) c.check(a[i] == b[n - 1 - i], s.op == READ ? "read_differs" : "text_differs", what + " gives " + a[i] + " with C locale " + cl + ", thread locale " + tlx + ", C++ locale " + xx + ", errno " + er + rest + "; in a clean process " + b[n - 1 - i]);
        cnt(s.op == READ ? "reads" : "formats");
        if (s.op == READ) cnt(a[i][0] == '(' ? "reads.returned" : "reads.rejected");
        c.sig(mix(mix((u64)s.op * 8 + (u64)s.a[0], hstr((cl + tlx + xx).c_str())), mix(hstr(er.c_str()) % 5, mix((u64)s.a[1], a[i][0] == '('))));
        ++i;
      }
    }
  }
}

Plan scn_gen(const std::string& prop, u64 seed) {
  Plan p;
  p.prop = prop;
  p.seed = seed;
  Rng r(seed);
  auto add = [&](int op, std::initializer_list<i64> a, const std::string& t = "") {
    Step s;
    s.op = op;
    int i = 0;
    for (i64 v : a) s.a[i++] = v;
    s.s = t;
    p.steps.push_back(s);
  };
  bool rd = prop == "C10";
  int n = (int)r.range(4, 40);
  Step last, lastf;
  lastf.op = -1;
  unsigned mask = (unsigned)r.below(8191) + 1;
  for (int i = 0; i < n; ++i) {
    int x = (int)r.below(100);
    if (x < 45) {
      int op = (int)r.range(ERRNO, r.chance(1, 3) ? SERIES : CXX);
      if (!((mask >> (op - ERRNO)) & 1)) continue;
      switch (op) {
        case ERRNO: add(ERRNO, {r.chance(1, 2) ? ERANGE : r.chance(1, 2) ? r.range(0, 133) : EINVAL}); break;
        case NUM: add(NUM, {(i64)r.below(6)}); break;
        case CLOC: add(CLOC, {(i64)r.below(NL), r.chance(1, 2) ? 0 : (i64)r.below(4)}); break;
        case TLOC: add(TLOC, {(i64)r.below(NL + 1)}); break;
        case CXX: add(CXX, {(i64)r.below(NX)}); break;
        case ZONE: add(ZONE, {(i64)r.below(5)}); break;
        case WALL: add(WALL, {r.chance(1, 2) ? r.range(0, 4102444800LL) : r.range(-60000000000LL, 250000000000LL)}); break;
        case DIRTY: add(DIRTY, {r.chance(1, 3) ? 0xff : (i64)r.below(256)}); break;
        case ENVIR: add(ENVIR, {(i64)r.below(10), (i64)r.below(5)}); break;
        case COUT: add(COUT, {(i64)r.below(6)}); break;
        case CALLER: add(CALLER, {(i64)r.below(4)}); break;
        case FPE: add(FPE, {r.chance(1, 4) ? 0 : FE_ALL_EXCEPT}); break;
        case SERIES: {
          i64 len = r.chance(1, 60) ? r.range(4, 6) : (i64)r.below(4);
          i64 k2 = (i64)r.below(NKIND + 3);
          std::string t;
          if (k2 < NKIND) {
            Style st = rnd_style(r);
            if (k2 == K_YOD_HMS) st = yod_style(st);
            t = render((int)k2, rnd_fields(r), st);
            if (r.chance(1, 2)) t.resize(t.size() ? r.below(t.size()) : 0);
            for (char& ch : t) if (!ch) ch = '-';
          }
          int res = (int)r.below(3);
          add(SERIES, {len, k2, res, rnd_mjd(r), r.range(0, UPD(res) - 1)}, t);
          break;
        }
      }
      continue;
    }
    bool read = rd ? x < 92 : x >= 92;
    if (read) {
      int kind = r.chance(1, 5) ? K_MONTH : (int)r.below(5);
      Style st = rnd_style(r);
      if (kind == K_YOD_HMS) st = yod_style(st);
      std::string t = render(kind, rnd_fields(r), st);
      switch (r.below(9)) {
        case 0: t.resize(t.size() ? r.below(t.size()) : 0); break;
        case 1: if (!t.empty()) t[r.below(t.size())] = (char)r.range(1, 255); break;
        case 2: for (char& ch : t) if (ch == '.') ch = ','; break;
        case 3: { static const char* const bad[] = {"2015-13-01", "2015-02-30 10:00:00", "99999999999999999999-01-01", "2015-12-30 12:09:1e999", "2015-12-30 12:09:1e-400", "Foo", "2015-Foo-01 00:00:00", "2015-12", "", "x", "2015-367", "2015-12-30 12:09:1.234,5", "2015-12-30 12:09:30.5e1", "2015-12-30 12:09:0x1F", "2015-12-30 12:09:1,234.5", "2015-12-30 12:09:nan", "2015-12-30 12:09: 7.5", "2015-12-30 12:09:+7.5", "2015-12-30 12:09:-7.5"}; t = bad[r.below(sizeof bad / sizeof *bad)]; break; }
        case 4: if (!t.empty()) t.insert(r.below(t.size() + 1), 1, (char)r.range(128, 255)); break;
        default: break;
      }
      if (!last.s.empty() && r.chance(1, 3)) {  // much like the one before: what a memory of earlier reads confuses
        t = last.s;
        if (r.chance(2, 3)) kind = (int)last.a[0];
        size_t i = r.below(t.size()), j = r.below(t.size());
        switch (r.below(6)) {
          case 0: break;
          case 1: std::swap(t[i], t[j]); break;
          case 2: t[i] = (char)('0' + r.below(10)); break;
          case 3: for (size_t q = i; q < t.size(); ++q) if (m_digit(t[q])) t[q] = (char)('0' + r.below(10)); break;
          case 4: for (size_t q = 0; q < t.size(); ++q) if (m_alpha(t[q])) t[q] = (char)(t[q] ^ 32); break;
          default: t[i] = (char)(t[i] + (r.chance(1, 2) ? 1 : -1)); if (r.chance(1, 2)) t[j] = (char)(t[j] - (r.chance(1, 2) ? 1 : -1));
        }
      }
      for (char& ch : t) if (!ch) ch = '-';
      add(READ, {kind, (i64)r.below(3), (i64)r.below(2)}, t);
      last = p.steps.back();
    } else {
      int res = (int)r.below(3);
      i64 u = r.range(0, UPD(res) - 1);
      if (r.chance(1, 4)) u = r.chance(1, 2) ? 0 : UPD(res) - 1;
      static const char seps[] = "-/.:_ ,;T%";
      i64 mjd = rnd_mjd(r);
      if (lastf.op == FMT && r.chance(1, 3)) {  // an instant near, or alike to, the one before
        if (r.chance(1, 2)) res = (int)lastf.a[1];
        i64 us = lastf.a[3] * (UPD(2) / UPD((int)lastf.a[1]));
        mjd = lastf.a[2];
        switch (r.below(5)) {
          case 0: break;
          case 1: us += r.range(-1000001, 1000001); break;
          case 2: us = us / 60000000 * 60000000 + r.range(0, 59999999); break;
          case 3: mjd += r.chance(1, 2) ? r.range(-2, 2) : (r.chance(1, 2) ? 1 : -1) * (i64)(1ULL << r.below(22)); break;
          default: us = r.range(0, UPD(2) - 1);
        }
        mjd = mjd < MJD_LO ? MJD_LO : mjd > MJD_HI ? MJD_HI : mjd;
        u = fmod_(us, UPD(2)) / (UPD(2) / UPD(res));
      }
      add(FMT, {r.chance(1, 3) && lastf.op == FMT ? lastf.a[0] : (i64)r.below(3), res, mjd, u, r.chance(1, 3) ? 0 : (i64)seps[r.below(sizeof seps - 1)]});
      lastf = p.steps.back();
    }
  }
  return p;
}
