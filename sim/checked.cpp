// Scenario "checked": the library is compiled with its optional run-time checks (USE_DATETIME_CHECKS). Nodes keep
// clocks and stopwatches under the documented rule of that build, no negative amounts and no instant before day 0;
// the simulator stands in for the abort of a failed check. Decides C20.
#include <csetjmp>

#include "clock.hpp"
#include "noise.hpp"
#include "datetime_write.hpp"

const char* scn_name = "checked";
const int scn_others = STATES;
enum Op { INIT, TICK, JUMP, BACK, READ, SPAN, WATCH, CKPT, CRASH, STALL, RESUME, LOG, MISUSE };
const char* scn_ops[] = {"INIT", "TICK", "JUMP", "BACK", "READ", "SPAN", "WATCH", "CKPT", "CRASH", "STALL", "RESUME", "LOG", "MISUSE", nullptr};
// INIT  node res mjd tod_us
// TICK  dt_us salt              running clocks and stopwatches advance
// JUMP  node mjd tod_us k       forward to a later instant through an interval, else rebuilt at the instant
// BACK  node how amount sub     clock set back, not before day 0
// READ  node | SPAN node node | WATCH node other amount | CKPT node form | CRASH node | STALL node | RESUME node how
// LOG   node writer reader      a line written and read back
// MISUSE kind value             a value the build documents as forbidden

// ---- the process that a failed check would abort ----
static jmp_buf trap;
static bool armed = false;
static char why[400];
extern "C" void __assert_fail(const char* e, const char* file, unsigned, const char* fn) noexcept {
  if (!armed) { fprintf(stderr, "check failed outside a library call: %s\n", e); _exit(98); }
  const char* b = strrchr(file, '/');
  snprintf(why, sizeof why, "%s (%s, %s)", e, b ? b + 1 : file, fn);
  armed = false;
  longjmp(trap, 1);
}
template <class F> __attribute__((noinline)) static bool stopped(F& f) {
  armed = true;
  if (setjmp(trap)) return true;
  f();
  armed = false;
  return false;
}

struct Node {
  int res = 0;
  Clk clk;
  i64 watch = 0;  // a stopwatch, in units of the clock, as the application stores it
  bool stalled = false;
  i64 missed = 0;
  bool saved = false;
  int form = 0;
  i64 v[6] = {0};
  i128 tot = 0;
};

static const i64 TOP = MJD_HI - 1000;

struct Checked {
  Ctx& c;
  std::vector<Node> nodes;
  explicit Checked(Ctx& c_) : c(c_) {}

  // a call that must not be stopped
  template <class W, class F> void must(W where, F f) {
    ++c.checks;
    if (stopped(f)) c.fail("stopped", std::string(where()) + " asks for nothing negative and is stopped by the check " + why);
  }
#define MUST(where, ...) must([&] { return std::string(where); }, [&] { __VA_ARGS__; })

  template <class S> void is(const datetime<S>& d, i128 want, const char* what) {
    c.check(total(d) == want && d.sec_as_i() >= 0 && d.sec_as_i() < S::max_in_day, "clock", std::string(what) + " gives " + show(Clk{d}) + ", expected total " + str128(want));
    c.obs((u64)total(d));
  }
  enum { H_OWN, H_COARSE, H_FINE, H_IV, H_ADD, H_ADD_FINE, NH };

  // amt >= 0 own units forward (sub: finer part, lost)
  template <class S> void forward(datetime<S>& d, int how, i64 amt, i64 sub) {
    constexpr int R = resof<S>();
    const i128 cur = total(d);
    if (amt < 0 || cur + amt > (i128)TOP * S::max_in_day) return;
    const i64 days = amt / S::max_in_day, rest = amt % S::max_in_day;
    const std::string at = c.verbose ? show(Clk{d}) : "";
    switch (how) {
      case H_COARSE:
        if (R == 0) { MUST("adding " + std::to_string(amt) + " s to " + show(Clk{d}), d.add_seconds(S{amt})); break; }
        { i64 q = R == 2 && (sub & 1) ? 1000 : FAC[R];
          i64 ca = amt / q;
          amt = ca * q;
          if (q == 1000 && R == 2) MUST("adding whole ms to " + show(Clk{d}), d.add_seconds(milliseconds{ca}));
          else MUST("adding whole s to " + show(Clk{d}), d.add_seconds(seconds{ca})); }
        break;
      case H_FINE:
        if (R == 2) { MUST("adding us to " + show(Clk{d}), d.add_seconds(S{amt})); break; }
        { i64 f = 1000000 / FAC[R];
          i64 fa = (i64)((i128)amt * f > (i128)4e18 ? 0 : amt * f);
          if (!fa) amt = 0;
          fa += sub % f;
          MUST("adding " + std::to_string(fa) + " us to " + show(Clk{d}), d.add_seconds(microseconds{fa})); }
        break;
      case H_IV: MUST("adding an interval to " + show(Clk{d}), d += (datetime_interval<S>{modified_julian_day{days}, S{rest}})); break;
      case H_ADD: MUST("add() of days and rest to " + show(Clk{d}), d = d.add(modified_julian_day{days}, S{rest})); break;
      case H_ADD_FINE: {
        i64 f = 1000000 / FAC[R];
        MUST("add() of days and us to " + show(Clk{d}), d = d.add(modified_julian_day{days}, microseconds{rest * f + (R < 2 ? sub % f : 0)}));
        break;
      }
      default: MUST("adding " + std::to_string(amt) + " to " + show(Clk{d}), d.add_seconds(S{amt}));
    }
    is(d, cur + amt, "going forward");
  }
  // amt >= 0 own units back
  template <class S> void back(datetime<S>& d, int how, i64 amt, i64 sub) {
    constexpr int R = resof<S>();
    const i128 cur = total(d);
    if ((i128)amt > cur) amt = (i64)cur;  // not before day 0
    const std::string from = show(Clk{d});
    switch (how % 3) {
      case 1:
        if (R > 0) {
          i64 q = R == 2 && (sub & 1) ? 1000 : FAC[R];
          i64 ca = amt / q;
          amt = ca * q;
          if (q == 1000 && R == 2) MUST("removing whole ms from " + from, d.remove_seconds(milliseconds{ca}));
          else MUST("removing " + std::to_string(ca) + " s from " + from, d.remove_seconds(seconds{ca}));
          break;
        }
      case 2:
        if (R < 2) {
          i64 f = 1000000 / FAC[R];
          if ((i128)amt * f > (i128)4e18) return;
          i64 fa = amt * f;
          if (sub % 3) { fa -= fa ? sub % f : 0; if (fa < 0) fa = 0; }
          MUST("removing " + std::to_string(fa) + " us from " + from, d.remove_seconds(microseconds{fa}));
          i128 err = total(d) * f - (cur * f - fa);
          c.check(fa % f ? err > -f && err < f : err == 0, "clock", "removing " + std::to_string(fa) + " us from " + from + " gives " + show(Clk{d}));
          c.check(d.sec_as_i() >= 0 && d.sec_as_i() < S::max_in_day, "clock", "removing " + std::to_string(fa) + " us from " + from + " gives " + show(Clk{d}));
          c.obs((u64)total(d));
          c.sig(mix(mix(21, (u64)R), (u64)(fa % f != 0) * 4 + (u64)(total(d) / S::max_in_day != cur / S::max_in_day)));
          return;
        }
      default: MUST("removing " + std::to_string(amt) + " from " + from, d.remove_seconds(S{amt}));
    }
    is(d, cur - amt, "going back");
  }

  // form % 9: the constructor; form / 9: some days given as minutes (1), hours (2) or in the last part (3)
  template <class S> datetime<S> build(int form, i128 t) {
    const i64 wide = form / 9, spare = 1 + (i64)(t % 700);
    form %= 9;
    const i64 U = S::max_in_day, F = FAC[resof<S>()];
    i64 days = (i64)(t / U), tod = (i64)(t % U);
    const bool parts = (form >= 3 && form <= 7) && wide && days >= spare;
    if (parts) days -= spare;
    Civil cv = m_civil(days);
    year y{(int)cv.y};
    month m{cv.m};
    day_of_month dm{cv.d};
    day_of_year dy{cv.doy};
    i64 h = tod / (3600 * F), mn = tod / (60 * F) % 60, rest = tod % (60 * F);
    if (parts) {
      if (wide == 1) mn += spare * 1440;
      else if (wide == 2) h += spare * 24;
      else if (form == 5 || form == 6) mn += h * 60, h = spare * 24;
      else rest += mn * 60 * F + spare * U, mn = 0;
    }
    datetime<S> d{modified_julian_day{0}, S{0}};
    auto at = [&] { return "building mjd " + std::to_string(days) + ", " + std::to_string(tod) + " " + RN[resof<S>()] + " (form " + std::to_string(form) + ", " + std::to_string(h) + " h " + std::to_string(mn) + " min " + std::to_string(rest) + ")"; };
    switch (form) {
      case 1: MUST(at(), d = datetime<S>(y, m, dm, S{tod})); break;
      case 2: MUST(at(), d = datetime<S>(y, dy, S{tod})); break;
      case 3: MUST(at(), d = datetime<S>(y, m, dm, hours{(int)h}, minutes{(int)mn}, S{rest})); break;
      case 4: MUST(at(), d = datetime<S>(y, dy, hours{(int)h}, minutes{(int)mn}, S{rest})); break;
      case 5: MUST(at(), d = datetime<S>(y, m, dm, hours{(int)h}, minutes{(int)mn}, (double)rest / (double)F)); break;
      case 6: MUST(at(), d = datetime<S>(y, dy, hours{(int)h}, minutes{(int)mn}, (double)rest / (double)F)); break;
      case 7: MUST(at(), d = datetime<S>(modified_julian_day{days}, hours{(int)h}, minutes{(int)mn}, S{rest})); break;
      case 8: if (days >= 44244) { MUST(at(), d = datetime<S>(gps_week{(days - 44244) / 7}, S{(days - 44244) % 7 * U + tod})); break; }
      default: MUST(at(), d = datetime<S>(modified_julian_day{days}, S{tod}));
    }
    is(d, t, "building");
    return d;
  }

  template <class S> void read(const datetime<S>& d) {
    const i64 mjd = d.mjd().as_underlying_type(), tod = d.sec_as_i(), U = S::max_in_day, F = FAC[resof<S>()];
    Civil cv = m_civil(mjd);
    ymd_date a{year{1}, month{1}, day_of_month{1}};
    ydoy_date b{year{1}, day_of_year{1}};
    LAZY(at, "reading " + show(Clk{d}));
    MUST(at, a = d.as_ymd(); b = d.as_ydoy());
    c.check(a.__year.as_underlying_type() == cv.y && a.__month.as_underlying_type() == cv.m && a.__dom.as_underlying_type() == cv.d && b.__year.as_underlying_type() == cv.y && b.__doy.as_underlying_type() == cv.doy, "read", at + " gives the wrong date");
    i64 h = 0, mn = 0, s = 0, fr = 0;
    MUST(at, auto x = d.as_hmsf(); h = std::get<0>(x).as_underlying_type(); mn = std::get<1>(x).as_underlying_type(); s = std::get<2>(x).as_underlying_type(); fr = std::get<3>(x));
    c.check(((h * 60 + mn) * 60 + s) * F + fr == tod && mn < 60 && s < 60 && fr < F, "read", at + " gives the wrong time of day");
    double m = 0;
    MUST(at, m = d.as_mjd());
    c.check(fabsl((long double)m - ((long double)mjd + (long double)tod / U)) <= 3e-16L * (mjd + 1) * 3, "read", at + " gives the wrong fractional day");
    if (mjd >= 44244) {
      long sow = 0;
      S so{0};
      i64 w = 0;
      MUST(at, w = d.as_gps_wsow(sow).as_underlying_type(); d.as_gps_wsow(so));
      c.check(w == (mjd - 44244) / 7 && sow == (mjd - 44244) % 7 * 86400 + tod / F && so.as_underlying_type() == (mjd - 44244) % 7 * U + tod, "read", at + " gives the wrong GPS week or second");
    }
    if (mjd >= 41317) { int o = 0; MUST(at, o = dat(d)); c.check(o == m_tai_utc(mjd), "read", at + " gives the wrong TAI-UTC"); MUST(at, o = dat(a.__year, a.__month)); c.check(o == m_tai_utc(mjd), "read", at + " gives the wrong TAI-UTC by month"); }
    bool lim = false;
    MUST(at, lim = datetime<S>::min() < d && d < datetime<S>::max());
    c.check(lim, "read", at + ": outside min() and max()");
    copies<S, seconds>(d);
    copies<S, milliseconds>(d);
    copies<S, microseconds>(d);
  }
  template <class S, class T> void copies(const datetime<S>& d) {
    datetime<T> e{modified_julian_day{0}, T{0}};
    MUST("casting " + show(Clk{d}), e = d.template cast_to<T>());
    is(e, total(d) * T::max_in_day / S::max_in_day, "casting");
  }

  // the later of two instants minus the earlier
  template <class A, class B> void span_t(const datetime<A>& a, const datetime<B>& b) {
    constexpr i64 U = A::max_in_day > B::max_in_day ? A::max_in_day : B::max_in_day;
    i128 ta = total(a) * (U / A::max_in_day), tb = total(b) * (U / B::max_in_day);
    if (ta < tb) return span_t(b, a);
    i128 got = 0;
    LAZY(at, show(Clk{a}) + " minus " + show(Clk{b}));
    MUST(at, got = delta_sec(a, b).as_underlying_type());
    c.check(got == ta - tb, "difference", at + " is " + str128(got) + ", expected " + str128(ta - tb));
    if constexpr (std::is_same_v<A, B>) {
      MUST(at, got = a.delta_sec(b).as_underlying_type());
      c.check(got == ta - tb, "difference", at + " is " + str128(got) + ", expected " + str128(ta - tb));
      datetime_interval<A> iv, iv2;
      MUST(at, iv = a.delta_date(b); iv2 = delta_date(a, b));
      i128 it = (i128)iv.days().as_underlying_type() * U + iv.sec().as_underlying_type();
      c.check(it == ta - tb && iv.sec().as_underlying_type() >= 0 && iv.sec().as_underlying_type() < U && iv == iv2, "interval", at + " is " + std::to_string(iv.days().as_underlying_type()) + " days and " + std::to_string(iv.sec().as_underlying_type()));
      datetime<A> r = b;
      MUST(at, r += iv);
      is(r, ta, "applying an interval");
      datetime_interval<A> q, z;
      i64 div = 1 + (i64)((u64)(ta ^ tb) % 60);
      MUST(at, q = iv / (int)div);
      if (ta - tb < (i128)1000 * U) { i128 err = ((i128)q.days().as_underlying_type() * U + q.sec().as_underlying_type()) * div - it; c.check(err <= 2 * div && err >= -2 * div, "interval", at + " divided by " + std::to_string(div)); }
      c.check((iv > z) == (ta > tb) && (iv == z) == (ta == tb) && z <= iv, "interval", at + " compares wrongly with nothing");
      double f = 0;
      MUST(at, f = iv.as_mjd());
      c.check(fabsl((long double)f - (long double)it / U) <= 1e-9L, "interval", at + " in days");
    }
    if (a.mjd() >= b.mjd()) {
      MUST(at, got = mjd_sec_diff<A>(a.mjd(), b.mjd()).as_underlying_type());
      c.check(got == (i128)(a.mjd().as_underlying_type() - b.mjd().as_underlying_type()) * A::max_in_day, "difference", at + ": days apart");
    }
    c.sig(mix(22, mix((u64)resof<A>() * 3 + resof<B>(), (u64)(a.mjd() == b.mjd()) + 2 * (u64)(a.sec_as_i() < b.sec_as_i()) + 4 * (u64)(ta == tb) + 8 * (u64)(a.sec_as_i() == 0) + 16 * (u64)(b.sec_as_i() == 0))));
  }

  template <class S> void watch_t(Node& n, i64 other, i64 k) {
    const i64 U = S::max_in_day, F = FAC[resof<S>()];
    const i64 m = n.watch, o = other % (m + 1);  // not more than the stopwatch shows
    S w{0}, r{0};
    LAZY(at, "stopwatch at " + std::to_string(m) + " " + RN[resof<S>()]);
    MUST(at, w = S{m});
    MUST(at, r = w - S{o});
    c.check(r.as_underlying_type() == m - o, "watch", at + " minus " + std::to_string(o) + " shows " + std::to_string(r.as_underlying_type()));
    MUST(at, r += S{o});
    c.check(r == w, "watch", at + " after removing and adding " + std::to_string(o) + " shows " + std::to_string(r.as_underlying_type()));
    MUST(at, r = w + S{o});
    c.check(r.as_underlying_type() == m + o && r >= w, "watch", at + " plus " + std::to_string(o) + " shows " + std::to_string(r.as_underlying_type()));
    MUST(at, r -= S{o}; r++; --r);
    c.check(r == w, "watch", at + " counted up and down");
    int days = -1;
    r = w;
    if (m / U < 2000000000) {
      int td = -1;
      MUST(at, td = r.to_days(); days = r.remove_days());
      c.check(days == m / U && td == days && r.as_underlying_type() == m % U, "watch", at + " in days and rest shows " + std::to_string(days) + " + " + std::to_string(r.as_underlying_type()));
    }
    if (m / (3600 * F) < 2000000000) {
      i64 h = 0, mn = 0, s = 0, fr = 0;
      MUST(at, auto x = w.to_hmsf(); h = std::get<0>(x).as_underlying_type(); mn = std::get<1>(x).as_underlying_type(); s = std::get<2>(x).as_underlying_type(); fr = std::get<3>(x));
      c.check(((h * 60 + mn) * 60 + s) * F + fr == m && mn < 60 && s < 60, "watch", at + " in hours, minutes and seconds");
      MUST(at, r = S(hours{(int)h}, minutes{(int)mn}, S{s * F + fr}));
      c.check(r == w, "watch", at + " put together from hours, minutes and seconds");
      MUST(at, r = S(hours{(int)h}, minutes{(int)mn}, (double)s + (double)fr / (double)F));
      c.check(r == w, "watch", at + " put together from hours, minutes and fractional seconds");
      hours hr{(int)h};
      int dd = 0;
      MUST(at, dd = hr.remove_days());
      c.check(dd == h / 24 && hr.as_underlying_type() == h % 24, "watch", at + ": hours to days");
      hours h2{(int)(h - (k % (h + 1)))};
      MUST(at, hr = hours{(int)h}; hr -= h2; hr += 1; hr -= 1);
      c.check(hr.as_underlying_type() == k % (h + 1), "watch", at + ": hours less hours");
    }
    microseconds u{0};
    if (m < (i64)9e18 / (1000000 / F)) {
      MUST(at, u = cast_to<S, microseconds>(w));
      c.check(u.as_underlying_type() == m * (1000000 / F), "watch", at + " in us");
      MUST(at, r = cast_to<microseconds, S>(u));
      c.check(r == w, "watch", at + " in us and back");
    }
    c.obs((u64)m);
  }

  template <class S> void log_t(const datetime<S>& d, int writer, int rd) {
    std::string t;
    const i64 tod = d.sec_as_i(), F = FAC[resof<S>()];
    LAZY(at, "logging " + show(Clk{d}));
    bool ok = true;
    switch (writer) {
      case 0: MUST(at, t = strftime_ymd_hms(d)); break;
      case 1: MUST(at, t = strftime_ymd_hmfs(d)); break;
      default: MUST(at, t = d.stringify());
    }
    if (writer == 0 || writer == 2) {
      datetime<S> r{modified_julian_day{0}, S{0}};
      MUST(at, try { r = strptime_ymd_hms<S>(t.c_str()); } catch (std::exception&) { ok = false; });
      c.check(ok, "log", at + ": " + shown(t) + " is not read back");
      is(r, total(d) - (writer == 0 ? tod % F : 0), "reading a log line");
    }
    Civil cv = m_civil(d.mjd().as_underlying_type());
    char b[80];
    datetime<S> r{modified_julian_day{0}, S{0}};
    if (rd == 0) { snprintf(b, sizeof b, "%04d-%03d %02d:%02d:%02d", (int)cv.y, cv.doy, (int)(tod / F / 3600), (int)(tod / F / 60 % 60), (int)(tod / F % 60)); MUST(at, try { r = strptime_ydoy_hms<S>(b); } catch (std::exception&) { ok = false; }); }
    else { snprintf(b, sizeof b, "%04d-%.3s-%02d %02d:%02d:%02d", (int)cv.y, M_LONG[cv.m - 1], cv.d, (int)(tod / F / 3600), (int)(tod / F / 60 % 60), (int)(tod / F % 60)); MUST(at, try { r = strptime_yod_hms<S>(b); } catch (std::exception&) { ok = false; }); }
    c.check(ok, "log", at + ": " + b + " is not read");
    is(r, total(d) - tod % F, "reading a composed line");
    c.obs(t);
  }

  void misuse(int kind, i64 v) {
    i64 neg = v < 0 ? v : v > 0 ? -v : -1;
    int ni = neg < -2147483647LL ? -1 - (int)((u64)neg % 1000000) : (int)neg;
    bool s = false;
    volatile i64 sink = 0;
    const char* what = "";
    auto run = [&](const char* w, auto f) { what = w; s = stopped(f); };
    switch (kind) {
      case 0: run("hours", [&] { sink = hours{ni}.as_underlying_type(); }); neg = ni; break;
      case 1: run("minutes", [&] { sink = minutes{ni}.as_underlying_type(); }); neg = ni; break;
      case 2: run("seconds", [&] { sink = seconds{neg}.as_underlying_type(); }); break;
      case 3: run("milliseconds", [&] { sink = milliseconds{neg}.as_underlying_type(); }); break;
      case 4: run("microseconds", [&] { sink = microseconds{neg}.as_underlying_type(); }); break;
      default: { ni = -(int)((u64)neg % 100000) - 1; neg = ni; run("mjd_sec_diff", [&] { sink = mjd_sec_diff<seconds>(modified_julian_day{50000}, modified_julian_day{50000L - ni}).as_underlying_type(); }); }
    }
    c.check(s, "not_stopped", std::string(what) + " of " + std::to_string(neg) + " is not stopped");
    CNT("misuse.stopped");
    c.obs((u64)kind);
    c.sig(mix(23, (u64)kind));
  }

  void step(const Step& s) {
    if (s.op == INIT) {
      if (nodes.size() >= 6) return;
      Node n;
      n.res = (int)fmod_(s.a[1], 3);
      i64 mjd = fmod_(s.a[2], TOP), tod = fmod_(s.a[3], UPD(2)) / (1000000 / FAC[n.res]);
      with_res(n.res, [&](auto z) { typedef decltype(z) S; n.clk = build<S>(0, (i128)mjd * S::max_in_day + tod); });
      nodes.push_back(n);
      return;
    }
    if (s.op == MISUSE) return misuse((int)fmod_(s.a[0], 6), s.a[1]);
    if (nodes.empty()) return;
    Node& n = nodes[(size_t)fmod_(s.a[0], (i64)nodes.size())];
    switch (s.op) {
      case TICK: {
        i64 dt = s.a[0] < 0 ? 0 : s.a[0];
        c.simtime += (double)dt * 1e-6;
        Rng r((u64)s.a[1]);
        for (auto& x : nodes) {
          int how = (int)r.below(NH);
          i64 sub = (i64)r.below(1000000);
          if (x.stalled) { x.missed += dt; continue; }
          i64 amt = dt / (1000000 / FAC[x.res]);
          std::visit([&](auto& d) { forward(d, how, amt, sub); }, x.clk);
          if (x.watch < (i64)4e18 - amt) x.watch += amt;
        }
        break;
      }
      case JUMP: {
        i64 mjd = fmod_(s.a[1], TOP);
        ++c.faults;
        CNT("fault.clock_jump");
        std::visit([&](auto& d) {
          typedef typename std::decay_t<decltype(d)>::sec_type S;
          i128 t = (i128)mjd * S::max_in_day + fmod_(s.a[2], UPD(2)) / (1000000 / FAC[n.res]);
          datetime<S> to = build<S>((int)fmod_(s.a[3], 36), t);
          if (t >= total(d)) { datetime_interval<S> iv; MUST("interval to a later instant", iv = to.delta_date(d)); MUST("adding an interval", d += iv); is(d, t, "jumping forward"); }
          else d = to;
        }, n.clk);
        break;
      }
      case BACK:
        ++c.faults;
        CNT("fault.clock_set_back");
        std::visit([&](auto& d) { back(d, (int)fmod_(s.a[1], 3), s.a[2] < 0 ? -(s.a[2] + 1) : s.a[2], s.a[3] < 0 ? -(s.a[3] + 1) : s.a[3]); }, n.clk);
        break;
      case READ: std::visit([&](auto& d) { read(d); }, n.clk); break;
      case SPAN: {
        Node& o = nodes[(size_t)fmod_(s.a[1], (i64)nodes.size())];
        std::visit([&](auto& a) { std::visit([&](auto& b) { span_t(a, b); }, o.clk); }, n.clk);
        break;
      }
      case WATCH: {
        i64 add = s.a[2] < 0 ? -(s.a[2] + 1) : s.a[2];
        if (n.watch < (i64)4e18 - add) n.watch += add;
        if (n.watch > (i64)2e18) n.watch %= 1000000007;
        with_res(n.res, [&](auto z) { watch_t<decltype(z)>(n, s.a[1] < 0 ? -(s.a[1] + 1) : s.a[1], s.a[3] < 0 ? -(s.a[3] + 1) : s.a[3]); });
        break;
      }
      case CKPT: n.saved = true; n.form = (int)fmod_(s.a[1], 36); n.tot = total(n.clk); CNT("ckpt.written"); break;
      case CRASH:
        CNT("fault.crash");
        ++c.faults;
        n.stalled = false;
        n.missed = 0;
        n.watch = 0;
        if (n.saved) { with_res(n.res, [&](auto z) { n.clk = build<decltype(z)>(n.form, n.tot); }); CNT("restored"); }
        break;
      case STALL: if (!n.stalled) { n.stalled = true; CNT("fault.node_stalled"); ++c.faults; } break;
      case RESUME:
        if (n.stalled) {
          n.stalled = false;
          i64 m = n.missed / (1000000 / FAC[n.res]);
          n.missed = 0;
          std::visit([&](auto& d) { forward(d, (int)fmod_(s.a[1], NH), m, 0); }, n.clk);
        }
        break;
      case LOG: std::visit([&](auto& d) { log_t(d, (int)fmod_(s.a[1], 3), (int)fmod_(s.a[2], 2)); }, n.clk); break;
    }
  }
};

void scn_init() {}
void scn_exec(Ctx& c) {
  Checked w(c);
  for (auto& s : c.plan.steps) { dirty_stack(); if (!other(c, s)) w.step(s); }
}

static i64 pick_tod(Rng& r) {
  static const i64 us = 86400000000LL;
  switch (r.below(6)) {
    case 0: return 0;
    case 1: return us - 1 - r.range(0, 1) * 999 - r.range(0, 1) * 999000;
    case 2: return r.range(0, 86399) * 1000000;
    case 3: return r.range(0, 2000000);
    case 4: return us - r.range(1, 2000000);
    default: return (i64)r.below((u64)us);
  }
}
static i64 pick_day(Rng& r) {
  switch (r.below(7)) {
    case 0: return r.range(0, 3);
    case 1: return m_mjd(r.range(1859, 2300), (int)r.range(1, 12), 1) - r.range(0, 1);
    case 2: return 44244 + r.range(-1, 2000) * 7;
    case 3: return r.range(41317, 60000);
    case 4: { auto& e = r.pick(LEAPS); return m_mjd(e.y, e.m, 1) - r.range(0, 1); }
    case 5: return m_mjd(r.range(1859, 9990), 2, 28) + r.range(0, 2);
    default: return r.range(0, TOP - 1);
  }
}
Plan scn_gen(const std::string& prop, u64 seed) {
  Plan p;
  p.prop = prop;
  p.seed = seed;
  Rng r(seed);
  int nn = (int)r.range(2, 4), ns = (int)r.range(6, 50);
  auto add = [&](int op, std::initializer_list<i64> a) {
    Step s;
    s.op = op;
    int i = 0;
    for (i64 v : a) s.a[i++] = v;
    p.steps.push_back(s);
  };
  i64 bd = pick_day(r), bt = pick_tod(r);
  auto day = [&] { return r.chance(1, 2) ? bd + r.range(-1, 1) : pick_day(r); };
  auto tod = [&] { return r.chance(1, 4) ? bt + r.range(-2, 2) * (r.chance(1, 2) ? 1 : 1000000) : pick_tod(r); };
  auto amount = [&] {
    switch (r.below(5)) {
      case 0: return r.range(0, 3);
      case 1: return UPD((int)r.below(3)) * r.range(0, 5) + r.range(-1, 1);
      case 2: return r.logmag(58);
      case 3: return r.logmag(40);
      default: return r.logmag(20);
    }
  };
  for (int i = 0; i < nn; ++i) add(INIT, {i, (i64)r.below(3), day(), tod()});
  for (int i = 0; i < ns; ++i) {
    i64 n = (i64)r.below((u64)nn);
    int w = (int)r.below(100);
    if (w < 15) add(TICK, {r.chance(1, 2) ? r.range(1, 5000000) : r.logmag(45), (i64)(r.next() >> 1)});
    else if (w < 28) add(JUMP, {n, day(), tod(), (i64)r.below(36)});
    else if (w < 42) add(BACK, {n, (i64)r.below(3), amount(), (i64)r.below(2000000)});
    else if (w < 50) add(READ, {n});
    else if (w < 66) add(SPAN, {n, (i64)r.below((u64)nn)});
    else if (w < 76) add(WATCH, {n, amount(), amount(), (i64)r.below(1000)});
    else if (w < 82) add(CKPT, {n, (i64)r.below(36)});
    else if (w < 87) add(CRASH, {n});
    else if (w < 90) add(STALL, {n});
    else if (w < 93) add(RESUME, {n, (i64)r.below(Checked::NH)});
    else if (w < 97) add(LOG, {n, (i64)r.below(3), (i64)r.below(2)});
    else add(MISUSE, {(i64)r.below(6), -1 - r.logmag(50)});
  }
  return p;
}
