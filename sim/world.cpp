// Scenario "world": a set of nodes whose running clocks are ngpt::datetime objects, a simulated true time, a
// simulated network between them and durable checkpoints. Decides C01..C05, C19.
#include <algorithm>

#include "clock.hpp"
#include "noise.hpp"

const char* scn_name = "world";
const int scn_others = OTHERS | STATES;
enum Op { INIT, TICK, JUMP, ADJ, READ, SEND, REPL, CKPT, SYNC, CRASH, STALL, RESUME, FLUSH, DIVIDE, BURST };
const char* scn_ops[] = {"INIT", "TICK", "JUMP", "ADJ", "READ", "SEND", "REPL", "CKPT", "SYNC", "CRASH", "STALL", "RESUME", "FLUSH", "DIVIDE", "BURST", nullptr};
// INIT  node res mjd tod_us
// TICK  dt_us salt                advance simulated time; running clocks follow
// JUMP  node how mjd tod_us k sub   step a clock to an absolute target
// ADJ   node how amount k sub       adjust a clock by amount (in its own units)
// READ  node
// SEND  node mode salt delay_us     stamp to the collector; mode: 0 normal 1 drop 2 duplicate
// REPL  node mode salt delay_us     interval to the node's replica
// BURST node salt count kind       a clock-steering daemon adjusts the clock many times in a row (kind 0: to any instant, 1: mixed amounts)
// CKPT  node form | SYNC node | CRASH node lose_replica | STALL node | RESUME node | FLUSH | DIVIDE days secs div res

static i64 fi(i64 a, i64 b) { return fdiv(a, b); }

// a reading as persisted by a node
struct Reading {
  int form = -1;
  i64 v[8] = {0};
  double d = 0;
  i128 tot = 0;  // instant it was taken at, in units of the clock
};
struct Node {
  int res = 0;
  Clk clk;
  i128 model = 0;
  bool stalled = false;
  i64 missed = 0;
  Reading disk, cache;  // durable / written but not yet synced
  // replication
  bool has_rep = false;
  Clk last_sent, replica;
  u64 seq = 0, applied = 0;
  std::map<u64, std::pair<i128, i128>> expect;                       // seq -> primary instant, unused
  std::map<u64, std::pair<i64, i64>> inbox;                          // received, waiting for order
};
struct Msg {
  i64 due;
  u64 tie;
  int kind, node;  // kind 0: stamp, 1: interval
  Clk stamp;
  u64 seq;
  i64 days, secs;
};

enum How { ADD_OWN, REM_OWN, ADD_COARSE, REM_COARSE, ADD_FINE, REM_FINE, ADD_FINE_LOSSY, REM_FINE_LOSSY, PLUS_IV, ADD_MJD, ADD_MJD_FINE, NEW_MJD, NEW_MJD_HMS, NEW_YMD, NEW_YMD_HMS, NEW_YDOY, NEW_YDOY_HMS, NEW_GPS, DELTA_IV, NEW_YMD_FINE, NEW_YMD_HMS_FINE, NEW_YDOY_HMS_FINE, NEW_YMD_DEF, NEW_YMD_FSEC, NEW_YDOY_FSEC, NEW_YDOY_FINE, ADD_DAYS, NHOW };
static const char* HN[] = {"add_own", "remove_own", "add_coarser", "remove_coarser", "add_finer", "remove_finer", "add_finer_lossy", "remove_finer_lossy", "plus_interval", "add_mjd", "add_mjd_finer", "ctor_mjd", "ctor_mjd_hms", "ctor_ymd", "ctor_ymd_hms", "ctor_ydoy", "ctor_ydoy_hms", "ctor_gps", "plus_delta", "ctor_ymd_finer", "ctor_ymd_hms_finer", "ctor_ydoy_hms_finer", "ctor_ymd_parts", "ctor_ymd_fractional_s", "ctor_ydoy_fractional_s", "ctor_ydoy_finer", "add_days_only"};

static i64 pick_amount(Rng& r);

struct World {
  Ctx& c;
  std::vector<Node> nodes;
  std::vector<Msg> net;
  std::vector<Clk> log;  // the collector's history
  i64 T = 0;
  u64 tie = 0;
  bool burst = false;
  explicit World(Ctx& c_) : c(c_) {}

  i128 lo(int r) { return (i128)MJD_LO * UPD(r); }
  i128 hi(int r) { return (i128)(MJD_HI + 1) * UPD(r) - 1; }
  bool inr(i128 t, int r) { return t >= lo(r) && t <= hi(r); }

  // unnormalised hours and minutes; the largest k stand for parts that span the whole range of years
  static void hours_minutes(i64 k, i64& h, i64& mn) {
    const bool wide = k > 99999 || k < -99999;
    h = k % (wide ? 87000000 : 100000);
    mn = (k * 7919) % (wide ? 2147483647 : 1000000);
  }
  // Apply an adjustment of `amt` own units through library call `how`. Returns the exact target in "fine" units:
  // tgt = exact value * f, where f is the number of fine units per own unit, and exact tells whether the library
  // may lose up to one own unit.
  template <class S, class T> bool fine_adj(datetime<S>& d, int how, i64 amt, i64 sub, i64 k, i128& fine_tgt, i64& f) {
    constexpr i64 F = T::max_in_day / S::max_in_day;
    f = F;
    if (how == ADD_FINE || how == REM_FINE) sub = 0;
    if (F > 1) sub %= F; else sub = 0;
    i128 fa = (i128)amt * F + sub;
    i128 now = total(d) * F;
    if (now + fa < lo(resof<S>()) * F || now + fa > hi(resof<S>()) * F) { fa = -fa; if (now + fa < lo(resof<S>()) * F || now + fa > hi(resof<S>()) * F) return false; }
    i64 a = (i64)fa;
    fine_tgt = now + fa;
    if (how == ADD_FINE || how == ADD_FINE_LOSSY) d.add_seconds(T{a});
    else if (how == REM_FINE || how == REM_FINE_LOSSY) d.remove_seconds(T{-a});
    else if (how == ADD_MJD_FINE) {
      i64 days = fi(a, T::max_in_day) + k;
      datetime<S> before = d;
      d = d.add(modified_julian_day{days}, T{a - days * T::max_in_day});
      (void)before;
    } else return false;
    return true;
  }
  template <class S, class T> bool fine_new(datetime<S>& d, int how, i128 tgt, i64 sub, i64 k, i128& fine_tgt, i64& f) {
    constexpr i64 F = T::max_in_day / S::max_in_day;
    f = F;
    if (F > 1) sub = fmod_(sub, F); else sub = 0;
    i64 days = (i64)(tgt / UPD(resof<S>()));
    if ((i128)days * UPD(resof<S>()) > tgt) --days;
    i64 tod = (i64)(tgt - (i128)days * UPD(resof<S>()));
    i64 ft = tod * F + sub;
    fine_tgt = tgt * F + sub;
    Civil cv = m_civil(days);
    year y{(int)cv.y};
    month m{cv.m};
    day_of_month dm{cv.d};
    day_of_year dy{cv.doy};
    i64 h, mn;
    hours_minutes(k, h, mn);
    k %= 100000;
    i64 rest = ft - (h * 3600 + mn * 60) * (T::max_in_day / 86400L);
    if (how == NEW_YMD_FINE) d = datetime<S>(y, m, dm, T{ft + (k % 1000) * T::max_in_day}), fine_tgt += (i128)(k % 1000) * T::max_in_day;
    else if (how == NEW_YMD_HMS_FINE) d = datetime<S>(y, m, dm, hours{(int)h}, minutes{(int)mn}, T{rest});
    else if (how == NEW_YDOY_HMS_FINE) d = datetime<S>(y, dy, hours{(int)h}, minutes{(int)mn}, T{rest});
    else if (how == NEW_YDOY_FINE) d = datetime<S>(y, dy, T{ft + (k % 1000) * T::max_in_day}), fine_tgt += (i128)(k % 1000) * T::max_in_day;
    else return false;
    return true;
  }

  template <class S> void adjust_t(Node& n, datetime<S>& d, int how, i128 amt128, i64 k, i64 sub) {
    constexpr int R = resof<S>();
    const i64 U = S::max_in_day;
    i128 cur = total(d), tgt = cur + amt128;
    if (!inr(tgt, R)) { tgt = cur - amt128; if (!inr(tgt, R)) return; }
    i64 amt = (i64)(tgt - cur);
    i64 days = (i64)(tgt / U);
    if ((i128)days * U > tgt) --days;
    i64 tod = (i64)(tgt - (i128)days * U);
    Civil cv = m_civil(days);
    year y{(int)cv.y};
    month m{cv.m};
    day_of_month dm{cv.d};
    day_of_year dy{cv.doy};
    i64 h, mn;
    const i64 kw = k;
    hours_minutes(how == NEW_YMD_FSEC || how == NEW_YDOY_FSEC ? k % 100000 : k, h, mn);
    k %= 100000;
    const i64 rest = tod - (h * 3600 + mn * 60) * FAC[R];
    datetime<S> before = d;
    i128 fine_tgt = tgt;
    i64 f = 1;
    bool exact = true, done = true;
    switch (how) {
      case ADD_COARSE: case REM_COARSE: {
        if (R == 0) { d.add_seconds(S{amt}); break; }
        bool toS = R == 1 || (k & 1);
        i64 q = toS ? FAC[R] : 1000;
        i64 ca = amt / q;
        i64 restu = amt - ca * q;
        if (toS) { if (how == ADD_COARSE) d.add_seconds(seconds{ca}); else d.remove_seconds(seconds{-ca}); }
        else { if (how == ADD_COARSE) d.add_seconds(milliseconds{ca}); else d.remove_seconds(milliseconds{-ca}); }
        if (restu && (sub & 1)) d.add_seconds(S{restu}); else fine_tgt = tgt = cur + (i128)ca * q;
        break;
      }
      case ADD_FINE: case REM_FINE: case ADD_FINE_LOSSY: case REM_FINE_LOSSY: case ADD_MJD_FINE: {
        if constexpr (R == 0) done = (k & 1) ? fine_adj<S, milliseconds>(d, how, amt, sub, k % 1000, fine_tgt, f) : fine_adj<S, microseconds>(d, how, amt, sub, k % 1000, fine_tgt, f);
        else done = fine_adj<S, microseconds>(d, how, amt, sub, k % 1000, fine_tgt, f);
        exact = fine_tgt % f == 0;
        break;
      }
      case NEW_YMD_FINE: case NEW_YMD_HMS_FINE: case NEW_YDOY_HMS_FINE: case NEW_YDOY_FINE: {
        if (days + 1000 > MJD_HI || days - 1000 < MJD_LO) { d.add_seconds(S{amt}); break; }
        if constexpr (R == 0) done = (k & 1) ? fine_new<S, milliseconds>(d, how, tgt, sub, kw, fine_tgt, f) : fine_new<S, microseconds>(d, how, tgt, sub, kw, fine_tgt, f);
        else done = fine_new<S, microseconds>(d, how, tgt, sub, kw, fine_tgt, f);
        exact = fine_tgt % f == 0;
        break;
      }
      case ADD_OWN: d.add_seconds(S{amt}); break;
      case REM_OWN: d.remove_seconds(S{-amt}); break;
      case PLUS_IV: {
        i64 dd = fi(amt, U) + k;
        d += datetime_interval<S>{modified_julian_day{dd}, S{amt - dd * U}};
        break;
      }
      case ADD_MJD: {
        i64 dd = fi(amt, U) + k;
        const datetime<S> src = d;
        d = src.add(modified_julian_day{dd}, S{amt - dd * U});
        if (c.is("C01")) c.check(total(src) == cur, "add_changed_source", "datetime::add changed the object it was called on: " + show(Clk{src}));
        break;
      }
      case NEW_MJD: d = datetime<S>(modified_julian_day{days - k}, S{tod + k * U}); break;
      case NEW_MJD_HMS: d = datetime<S>(modified_julian_day{days}, hours{(int)h}, minutes{(int)mn}, S{rest}); break;
      case NEW_YMD: d = datetime<S>(y, m, dm, S{tod}); break;
      case NEW_YMD_HMS: d = datetime<S>(y, m, dm, hours{(int)h}, minutes{(int)mn}, S{rest}); break;
      case NEW_YDOY: d = datetime<S>(y, dy, S{tod}); break;
      case NEW_YDOY_HMS: d = datetime<S>(y, dy, hours{(int)h}, minutes{(int)mn}, S{rest}); break;
      case NEW_YMD_FSEC: case NEW_YDOY_FSEC: {  // seconds as a double: whole units are exact, the rest may cost less than a unit
        i64 part = sub & 1 ? fmod_(sub, 1000) : 0;
        if (rest < 0) part = -part;
        double fs = part ? ((double)rest + (double)part / 1000.0) / (double)FAC[R] : (double)rest / (double)FAC[R];
        if (how == NEW_YMD_FSEC) d = datetime<S>(y, m, dm, hours{(int)h}, minutes{(int)mn}, fs);
        else d = datetime<S>(y, dy, hours{(int)h}, minutes{(int)mn}, fs);
        if (part) { f = 1000; fine_tgt = tgt * 1000 + part; exact = false; }
        break;
      }
      case ADD_DAYS: {
        i64 dd = fi(amt, U);
        d = d.template add<S>(modified_julian_day{dd});
        fine_tgt = tgt = cur + (i128)dd * U;
        if (!inr(tgt, R)) done = false;
        break;
      }
      case NEW_YMD_DEF: {
        i64 hh = tod / (3600 * FAC[R]), mm = tod / (60 * FAC[R]) % 60;
        i64 tr = tod - (hh * 60 + mm) * 60 * FAC[R];
        switch (fmod_(k, 9)) {
          case 0: d = datetime<S>(y, m, dm); d.add_seconds(S{tod}); break;
          case 1: d = datetime<S>(y, m, dm, hours{(int)hh}); d.add_seconds(S{tod - hh * 3600 * FAC[R]}); break;
          case 2: d = datetime<S>(y, m, dm, hours{(int)hh}, minutes{(int)mm}); d.add_seconds(S{tr}); break;
          case 3: d = datetime<S>(modified_julian_day{days}, S{}); d.add_seconds(S{tod}); break;
          case 4: d = datetime<S>(y, dy); d.add_seconds(S{tod}); break;
          case 5: d = datetime<S>(y, dy, hours{(int)hh}); d.add_seconds(S{tod - hh * 3600 * FAC[R]}); break;
          case 6: d = datetime<S>(modified_julian_day{days}, hours{(int)hh}); d.add_seconds(S{tod - hh * 3600 * FAC[R]}); break;
          case 7: d = datetime<S>(modified_julian_day{days}, hours{(int)hh}, minutes{(int)mm}); d.add_seconds(S{tr}); break;
          default: d = datetime<S>(y, dy, hours{(int)hh}, minutes{(int)mm}); d.add_seconds(S{tr});
        }
        break;
      }
      case NEW_GPS: {
        if (days < 44244) { d.add_seconds(S{amt}); break; }
        i64 w = (days - 44244) / 7 - (k % 500);
        d = datetime<S>(gps_week{w}, S{(days - 44244 - w * 7) * U + tod});
        break;
      }
      case DELTA_IV: {
        datetime<S> t(modified_julian_day{days}, S{tod});
        d += (k & 1) ? t.delta_date(d) : delta_date(t, d);
        break;
      }
      default: d.add_seconds(S{amt});
    }
    if (!done) { d = before; return; }
    if (!burst) cnt(std::string("adj.") + HN[how % NHOW]);
    i128 act = total(d);
    if (c.is("C01")) {
      auto desc = [&] { return std::string(HN[how % NHOW]) + " on " + show(Clk{before}) + " by " + std::to_string(amt) + " " + RN[R] + " (k=" + std::to_string(k) + ", sub=" + std::to_string(sub) + "): now " + show(Clk{d}) + ", expected total " + str128(fine_tgt) + "/" + std::to_string(f) + " " + RN[R]; };
      i128 err = act * f - fine_tgt;
      if (exact) c.check(err == 0, "drift", desc());
      else c.check(err > -f && err < f, "drift", desc() + " (lost a unit or more)");
      c.check(d.sec_as_i() >= 0 && d.sec_as_i() < U, "unnormalised", desc());
    }
    n.model = act;
    if (burst) return;
    i64 ad = amt < 0 ? -amt : amt;
    int lg = 0;
    while (ad > 1) ad >>= 1, ++lg;
    c.sig(mix(mix((u64)how * 8 + R, (u64)(lg * 2 + (amt < 0))), (u64)cv.m * 64 + (m_leap(cv.y) ? 32 : 0) + (tod == 0) + 2 * (tod == U - 1) + 4 * (cv.d == 1) + 8 * exact));
  }

  void adjust(Node& n, int how, i128 amt, i64 k, i64 sub) {
    std::visit([&](auto& d) { adjust_t(n, d, how, amt, k, sub); }, n.clk);
    c.obs((u64)total(n.clk));
  }

  // ---- readings (C02) ----
  template <class S> void read_t(const datetime<S>& d) {
    constexpr int R = resof<S>();
    const i64 U = S::max_in_day;
    i64 mjd = d.mjd().as_underlying_type(), tod = d.sec_as_i();
    LAZY(at, show(Clk{d}));
    if (tod < 0 || tod >= U) c.fail("unnormalised", "time of day out of range " + at);
    Civil cv = m_civil(mjd);
    auto ymd = d.as_ymd();
    i64 yy = ymd.__year.as_underlying_type(), mm = ymd.__month.as_underlying_type(), dd = ymd.__dom.as_underlying_type();
    LAZY(ys, std::to_string(yy) + "/" + std::to_string(mm) + "/" + std::to_string(dd));
    c.check(yy == cv.y && mm == cv.m && dd == cv.d, "ymd", "as_ymd of " + at + " gives " + ys + ", expected " + std::to_string(cv.y) + "/" + std::to_string(cv.m) + "/" + std::to_string(cv.d));
    c.check(ymd.is_valid(), "ymd_valid", "as_ymd of " + at + " gives " + ys + " which is_valid() calls invalid");
    auto yd = d.as_ydoy();
    LAZY(yds, std::to_string(yd.__year.as_underlying_type()) + "-" + std::to_string(yd.__doy.as_underlying_type()));
    c.check(yd.__year.as_underlying_type() == cv.y && yd.__doy.as_underlying_type() == cv.doy, "ydoy", "as_ydoy of " + at + " gives " + yds + ", expected " + std::to_string(cv.y) + "-" + std::to_string(cv.doy));
    c.check(yd.is_valid(), "ydoy_valid", "as_ydoy of " + at + " gives " + yds + " which is_valid() calls invalid");
    auto yd2 = ymd.to_ydoy();
    c.check(yd2.__year == yd.__year && yd2.__doy == yd.__doy, "ymd_to_ydoy", "ymd_date " + ys + " to_ydoy gives " + std::to_string(yd2.__year.as_underlying_type()) + "-" + std::to_string(yd2.__doy.as_underlying_type()));
    auto ymd2 = yd.to_ymd();
    c.check(ymd2.__year == ymd.__year && ymd2.__month == ymd.__month && ymd2.__dom == ymd.__dom, "ydoy_to_ymd", "ydoy_date " + yds + " to_ymd gives " + std::to_string(ymd2.__year.as_underlying_type()) + "/" + std::to_string(ymd2.__month.as_underlying_type()) + "/" + std::to_string(ymd2.__dom.as_underlying_type()));
    c.check(cal2mjd(ymd.__year, ymd.__month, ymd.__dom).as_underlying_type() == mjd, "cal2mjd", "cal2mjd(" + ys + ") is not " + std::to_string(mjd));
    c.check(ydoy2mjd(yd.__year, yd.__doy).as_underlying_type() == mjd, "ydoy2mjd", "ydoy2mjd(" + yds + ") is not " + std::to_string(mjd));
    c.check(modified_julian_day(ymd.__year, ymd.__month, ymd.__dom).as_underlying_type() == mjd, "mjd_ctor_ymd", "modified_julian_day(" + ys + ")");
    c.check(modified_julian_day(yd.__year, yd.__doy).as_underlying_type() == mjd, "mjd_ctor_ydoy", "modified_julian_day(" + yds + ")");
    auto hm = d.as_hmsf();
    i64 H = std::get<0>(hm).as_underlying_type(), M = std::get<1>(hm).as_underlying_type(), Sx = std::get<2>(hm).as_underlying_type(), Fr = std::get<3>(hm);
    c.check(H == tod / (3600 * FAC[R]) && M == tod / (60 * FAC[R]) % 60 && Sx == tod / FAC[R] % 60 && Fr == tod % FAC[R], "hmsf", "as_hmsf of " + at + " gives " + std::to_string(H) + ":" + std::to_string(M) + ":" + std::to_string(Sx) + " +" + std::to_string(Fr));
    double fm = d.as_mjd();
    long double ex = (long double)mjd + (long double)tod / U;
    long double tol = 1e-15L * (fabsl(ex) + 10);
    c.check(fabsl((long double)fm - ex) <= tol, "as_mjd", "as_mjd of " + at + " gives " + std::to_string(fm));
    auto my = d.mjd().to_ymd();
    auto mo = d.mjd().to_ydoy();
    c.check(my.__year == ymd.__year && my.__month == ymd.__month && my.__dom == ymd.__dom, "mjd_to_ymd", "to_ymd of day " + std::to_string(mjd) + " differs from " + ys);
    c.check(mo.__year == yd.__year && mo.__doy == yd.__doy, "mjd_to_ydoy", "to_ydoy of day " + std::to_string(mjd) + " differs from " + yds);
    c.check(fabsl((long double)d.sec().fractional_days() - (long double)tod / U) <= 1e-14L, "fractional_days", "fractional_days of " + at + " gives " + std::to_string(d.sec().fractional_days()));
    if constexpr (R == 1) {
      double fr = -1;
      i64 ws = d.sec().resolve_sec(fr).as_underlying_type();
      c.check(ws == tod / 1000 && fabsl((long double)fr - (long double)(tod % 1000) / 1000) <= 1e-9L, "resolve_sec", "resolve_sec of " + at + " gives " + std::to_string(ws) + " + " + std::to_string(fr));
    }
    double jd = d.mjd().to_julian_day();
    c.check(jd == (double)mjd + 2400000.5, "julian_day", "to_julian_day of " + at + " gives " + std::to_string(jd));
    double fs = d.sec().to_fractional_seconds();
    c.check(fabsl((long double)fs - (long double)tod / FAC[R]) <= 1e-11L * 2, "fractional_seconds", "to_fractional_seconds of " + at + " gives " + std::to_string(fs));
    if (mjd >= 44244) {
      long sow = -1;
      gps_week w = d.as_gps_wsow(sow);
      c.check(w.as_underlying_type() == (mjd - 44244) / 7 && sow == (mjd - 44244) % 7 * 86400 + tod / FAC[R], "gps", "as_gps_wsow(long) of " + at + " gives week " + std::to_string(w.as_underlying_type()) + " sow " + std::to_string(sow));
      S sw{0};
      w = d.as_gps_wsow(sw);
      c.check(w.as_underlying_type() == (mjd - 44244) / 7 && sw.as_underlying_type() == (mjd - 44244) % 7 * U + tod, "gps", "as_gps_wsow(S) of " + at + " gives week " + std::to_string(w.as_underlying_type()) + " sow " + std::to_string(sw.as_underlying_type()));
      S rem = sw;
      int wd = rem.remove_days();
      c.check(wd == (int)((mjd - 44244) % 7) && rem.as_underlying_type() == tod && sw.to_days() == wd, "week_split", "seconds of week of " + at + " split into day " + std::to_string(wd) + " (to_days " + std::to_string(sw.to_days()) + ") and " + std::to_string(rem.as_underlying_type()));
      c.check(day_of_week(sw) == (int)((mjd - 44244) % 7), "day_of_week", "day_of_week of " + at + " gives " + std::to_string(day_of_week(sw)));
    }
    copy_t<S, seconds>(d, at);
    copy_t<S, milliseconds>(d, at);
    copy_t<S, microseconds>(d, at);
    c.sig(mix(7, mix((u64)(cv.y % 400) * 512 + (u64)cv.doy, (u64)R * 4 + (tod == 0) + 2 * (tod == U - 1))));
  }
  template <class S, class T> void copy_t(const datetime<S>& d, const std::string& at) {
    datetime<T> e = d.template cast_to<T>();
    i64 t = e.sec_as_i();
    c.check(t >= 0 && t < T::max_in_day, "cast_unnormalised", "cast of " + at + " to " + RN[resof<T>()] + " gives " + show(Clk{e}));
    if (T::max_in_day >= S::max_in_day) c.check(total(e) == total(d) * (T::max_in_day / S::max_in_day), "cast_up", "cast of " + at + " to " + RN[resof<T>()] + " gives " + show(Clk{e}));
    else {
      i64 f = S::max_in_day / T::max_in_day;
      i128 err = total(e) * f - total(d);
      c.check(err > -f && err < f, "cast_down", "cast of " + at + " to " + RN[resof<T>()] + " gives " + show(Clk{e}));
    }
  }

  template <class S> Reading take_t(const datetime<S>& d, int form) {
    constexpr int R = resof<S>();
    Reading r;
    r.form = form;
    r.tot = total(d);
    auto ymd = d.as_ymd();
    auto yd = d.as_ydoy();
    auto hm = d.as_hmsf();
    i64 H = std::get<0>(hm).as_underlying_type(), M = std::get<1>(hm).as_underlying_type(), Sx = std::get<2>(hm).as_underlying_type(), Fr = std::get<3>(hm);
    switch (form) {
      case 0: r.v[0] = d.mjd().as_underlying_type(); r.v[1] = d.sec_as_i(); break;
      case 1: case 5: case 7:
        r.v[0] = ymd.__year.as_underlying_type(); r.v[1] = ymd.__month.as_underlying_type(); r.v[2] = ymd.__dom.as_underlying_type(); break;
      case 2: case 6: case 9:
        r.v[0] = yd.__year.as_underlying_type(); r.v[1] = yd.__doy.as_underlying_type(); break;
      case 3: case 4: {
        if (d.mjd().as_underlying_type() < 44244) { r.form = 0; r.v[0] = d.mjd().as_underlying_type(); r.v[1] = d.sec_as_i(); break; }
        if (form == 3) { S s{0}; r.v[0] = d.as_gps_wsow(s).as_underlying_type(); r.v[1] = s.as_underlying_type(); }
        else { long s = 0; r.v[0] = d.as_gps_wsow(s).as_underlying_type(); r.v[1] = s; }
        break;
      }
      case 8: { datetime<microseconds> u = d.template cast_to<microseconds>(); r.v[0] = u.mjd().as_underlying_type(); r.v[1] = u.sec_as_i(); break; }
      case 10: { datetime<seconds> u = d.template cast_to<seconds>(); r.v[0] = u.mjd().as_underlying_type(); r.v[1] = u.sec_as_i(); break; }
    }
    if (form == 1 || form == 2) r.v[3] = d.sec_as_i();
    if (form == 5 || form == 6 || form == 7 || form == 9) {
      r.v[3] = H; r.v[4] = M; r.v[5] = Sx * FAC[R] + Fr;
      r.d = (double)Sx + (double)Fr / (double)FAC[R];
    }
    return r;
  }
  template <class S> datetime<S> restore_t(const Reading& r, S) {
    year y{(int)r.v[0]};
    month m{(int)r.v[1]};
    day_of_month dm{(int)r.v[2]};
    day_of_year dy{(int)r.v[1]};
    hours h{(int)r.v[3]};
    minutes mn{(int)r.v[4]};
    switch (r.form) {
      case 1: return datetime<S>(y, m, dm, S{r.v[3]});
      case 2: return datetime<S>(y, dy, S{r.v[3]});
      case 3: return datetime<S>(gps_week{r.v[0]}, S{r.v[1]});
      case 4: return datetime<S>(gps_week{r.v[0]}, S{r.v[1] * FAC[resof<S>()]});
      case 5: return datetime<S>(y, m, dm, h, mn, S{r.v[5]});
      case 6: return datetime<S>(y, dy, h, mn, S{r.v[5]});
      case 7: return datetime<S>(y, m, dm, h, mn, r.d);
      case 9: return datetime<S>(y, dy, h, mn, r.d);
      case 8: return datetime<microseconds>(modified_julian_day{r.v[0]}, microseconds{r.v[1]}).template cast_to<S>();
      case 10: return datetime<seconds>(modified_julian_day{r.v[0]}, seconds{r.v[1]}).template cast_to<S>();
      default: return datetime<S>(modified_julian_day{r.v[0]}, S{r.v[1]});
    }
  }

  // ---- stamps (C03) ----
  template <class A, class B> void pair_t(const datetime<A>& a, const datetime<B>& b) {
    constexpr i64 U = A::max_in_day > B::max_in_day ? A::max_in_day : B::max_in_day;
    i128 ta = total(a) * (U / A::max_in_day), tb = total(b) * (U / B::max_in_day);
    LAZY(at, show(Clk{a}) + " and " + show(Clk{b}));
    auto ds = delta_sec(a, b);
    auto ds2 = delta_sec(b, a);
    c.check((i128)ds.as_underlying_type() == ta - tb, "delta_sec", "delta_sec of " + at + " is " + std::to_string(ds.as_underlying_type()) + ", expected " + str128(ta - tb));
    c.check((i128)ds2.as_underlying_type() == tb - ta, "delta_sec", "delta_sec of " + show(Clk{b}) + " and " + show(Clk{a}) + " is " + std::to_string(ds2.as_underlying_type()) + ", expected " + str128(tb - ta));
    c.check(decltype(ds)::max_in_day == U && decltype(ds2)::max_in_day == U, "delta_sec_res", "resolution of delta_sec for " + at);
    auto cmp = [&](auto x, auto y) {
      bool ok = (x == y) == (ta == tb) && (x != y) == (ta != tb) && (x < y) == (ta < tb) && (x <= y) == (ta <= tb) && (x > y) == (ta > tb) && (x >= y) == (ta >= tb);
      c.check(ok, "compare", "comparison of " + at + ": == " + std::to_string(x == y) + " != " + std::to_string(x != y) + " < " + std::to_string(x < y) + " <= " + std::to_string(x <= y) + " > " + std::to_string(x > y) + " >= " + std::to_string(x >= y));
    };
    if constexpr (std::is_same_v<A, B>) {
      cmp(a, b);
      auto iv = a.delta_date(b);
      auto iv2 = delta_date(a, b);
      i128 t1 = (i128)iv.days().as_underlying_type() * U + iv.sec().as_underlying_type();
      i128 t2 = (i128)iv2.days().as_underlying_type() * U + iv2.sec().as_underlying_type();
      c.check(t1 == ta - tb && t2 == ta - tb, "delta_date", "delta_date of " + at + " is (" + std::to_string(iv.days().as_underlying_type()) + " d, " + std::to_string(iv.sec().as_underlying_type()) + ")");
      c.check((i128)a.delta_sec(b).as_underlying_type() == ta - tb, "delta_sec", "member delta_sec of " + at);
    } else if constexpr (A::max_in_day > B::max_in_day) cmp(a, b.template cast_to<A>());
    else cmp(a.template cast_to<B>(), b);
    if (!burst) c.sig(mix(11, mix((u64)(resof<A>() * 3 + resof<B>()), (u64)((ta < tb) + 2 * (ta == tb)) * 64 + (u64)((a.mjd() == b.mjd()) + 2 * (a.sec_as_i() * (U / A::max_in_day) < b.sec_as_i() * (U / B::max_in_day))) )));
  }
  void pair(const Clk& a, const Clk& b) {
    std::visit([&](auto& x) { std::visit([&](auto& y) { pair_t(x, y); }, b); }, a);
  }
  void arrive(const Clk& s) {
    size_t n = log.size();
    pair(s, s);
    std::visit([&](auto& d) {
      typedef std::decay_t<decltype(d)> D;
      const D hi = D::max(), lo = D::min();
      c.check(d < hi && d <= hi && d != hi && !(d > hi) && !(d >= hi) && !(d == hi) && d > lo && d >= lo && d != lo && !(d < lo) && !(d <= lo) && lo < hi, "sentinel", "comparison of " + show(Clk{d}) + " with datetime::min() and max()");
    }, s);
    for (size_t j = n > 10 ? n - 10 : 0; j < n; ++j) pair(s, log[j]);
    if (n > 10) { pair(s, log[0]); pair(s, log[n / 2]); pair(s, log[n / 3]); }
    if (log.size() < 64) log.push_back(s);
    c.obs((u64)total(s));
  }
  void sort_log() {  // the collector sorts what it received, per resolution and after casting to the finest
    std::vector<datetime<microseconds>> v;
    for (auto& s : log) v.push_back(std::visit([](auto& d) { return d.template cast_to<microseconds>(); }, s));
    for (size_t i = 1; i < v.size(); ++i)
      for (size_t j = i; j > 0 && v[j] < v[j - 1]; --j) { auto t = v[j]; v[j] = v[j - 1]; v[j - 1] = t; }
    for (size_t i = 1; i < v.size(); ++i) c.check(total(v[i - 1]) <= total(v[i]), "sorted_history", "sorted history is not chronological at " + show(Clk{v[i - 1]}) + " / " + show(Clk{v[i]}));
    with_each_res([&](auto z) {
      typedef decltype(z) S;
      std::vector<datetime<S>> w;
      for (auto& s : log) if (std::holds_alternative<datetime<S>>(s)) w.push_back(std::get<datetime<S>>(s));
      for (size_t i = 1; i < w.size(); ++i)
        for (size_t j = i; j > 0 && w[j - 1] > w[j]; --j) { auto t = w[j]; w[j] = w[j - 1]; w[j - 1] = t; }
      for (size_t i = 1; i < w.size(); ++i) c.check(total(w[i - 1]) <= total(w[i]), "sorted_history", "sorted history is not chronological at " + show(Clk{w[i - 1]}) + " / " + show(Clk{w[i]}));
    });
  }
  template <class F> void with_each_res(F f) { f(seconds{}); f(milliseconds{}); f(microseconds{}); }

  // ---- interval replication (C04) ----
  template <class S> void interval_checks(const datetime_interval<S>& iv, i128 tot, i64 k) {
    const i64 U = S::max_in_day;
    auto sh = [&](const datetime_interval<S>& i) { return "(" + std::to_string(i.days().as_underlying_type()) + " d, " + std::to_string(i.sec().as_underlying_type()) + " " + RN[resof<S>()] + ")"; };
    auto tt = [&](const datetime_interval<S>& i) { return (i128)i.days().as_underlying_type() * U + i.sec().as_underlying_type(); };
    c.check(tt(iv) == tot, "interval_total", "interval " + sh(iv) + " should total " + str128(tot));
    c.check(iv.sec().as_underlying_type() >= 0 && iv.sec().as_underlying_type() < U, "interval_seconds", "interval " + sh(iv) + " has a seconds part outside one day");
    i64 dd = iv.days().as_underlying_type() + k;
    datetime_interval<S> other{modified_julian_day{dd}, S{iv.sec().as_underlying_type() - k * U}};
    c.check(tt(other) == tot && other == iv && !(other != iv) && other <= iv && other >= iv && !(other < iv) && !(other > iv), "interval_split", "interval " + sh(iv) + " split with " + std::to_string(k) + " days moved becomes " + sh(other));
    c.check(other.sec().as_underlying_type() >= 0 && other.sec().as_underlying_type() < U, "interval_seconds", "interval " + sh(other) + " has a seconds part outside one day");
    datetime_interval<S> renorm = iv;
    renorm.normalize();
    c.check(tt(renorm) == tot && renorm == iv, "interval_renormalise", "normalizing " + sh(iv) + " again gives " + sh(renorm));
    long double ex = (long double)tot / U;
    c.check(fabsl((long double)iv.as_mjd() - ex) <= 1e-15L * (fabsl(ex) + 10), "interval_as_mjd", "as_mjd of " + sh(iv) + " is " + std::to_string(iv.as_mjd()));
    static const i64 dl[] = {1, -1, 0, 86399, -86400, 86400};
    for (i64 e : dl) {
      i128 t2 = tot + (i128)e * (k & 1 ? 1 : U / 86400);
      i64 d2 = (i64)(t2 / U);
      datetime_interval<S> o{modified_julian_day{d2}, S{(i64)(t2 - (i128)d2 * U)}};
      bool ok = (iv == o) == (tot == t2) && (iv != o) == (tot != t2) && (iv < o) == (tot < t2) && (iv <= o) == (tot <= t2) && (iv > o) == (tot > t2) && (iv >= o) == (tot >= t2);
      c.check(ok, "interval_compare", "comparison of intervals " + sh(iv) + " and " + sh(o));
    }
    if (!burst) c.sig(mix(13, mix((u64)resof<S>() * 2 + (tot < 0), (u64)(iv.sec().as_underlying_type() == 0) + (u64)(k < 0) * 2 + (u64)(k > 0) * 4)));
  }
  void replicate(Node& n, int id, int mode, u64 salt, i64 delay) {
    Rng r(salt);
    if (!n.has_rep) { n.has_rep = true; n.replica = n.last_sent = n.clk; n.seq = n.applied = 0; n.expect.clear(); n.inbox.clear(); }
    Msg m;
    m.kind = 1;
    m.node = id;
    m.seq = ++n.seq;
    i128 d = total(n.clk) - total(n.last_sent);
    std::visit([&](auto& now) {
      typedef typename std::decay_t<decltype(now)>::sec_type S;
      auto& last = std::get<datetime<S>>(n.last_sent);
      auto iv = r.chance(1, 2) ? now.delta_date(last) : delta_date(now, last);
      interval_checks(iv, d, r.range(-3, 3) * (r.chance(1, 4) ? 1000 : 1));
      m.days = iv.days().as_underlying_type();
      m.secs = iv.sec().as_underlying_type();
      // the reverse interval leads back
      auto back = last.delta_date(now);
      auto cp = now;
      cp += back;
      c.check(total(cp) == total(last) && cp == last, "interval_back", "adding the interval from " + show(Clk{now}) + " back to " + show(Clk{last}) + " gives " + show(Clk{cp}));
    }, n.clk);
    n.expect[m.seq] = {total(n.clk), 0};
    n.last_sent = n.clk;
    post(m, mode == 1 ? 0 : mode, r, delay);
    if (mode == 1) { CNT("fault.msg_lost_retransmitted"); ++c.faults; Msg again = net.back(); net.back().due += delay * 4 + 1; (void)again; }
  }
  void deliver_interval(Node& n, const Msg& m) {
    if (!n.has_rep || m.seq <= n.applied) return;  // duplicate
    n.inbox[m.seq] = {m.days, m.secs};
    while (n.inbox.count(n.applied + 1)) {
      auto [days, secs] = n.inbox[n.applied + 1];
      n.inbox.erase(n.applied + 1);
      ++n.applied;
      std::visit([&](auto& rep) {
        typedef typename std::decay_t<decltype(rep)>::sec_type S;
        // the wire may carry an unnormalised split
        i64 k = (i64)(n.applied % 5) - 2;
        rep += datetime_interval<S>{modified_julian_day{days + k}, S{secs - k * S::max_in_day}};
        c.check(total(rep) == n.expect[n.applied].first, "replica_diverged", "replica is at " + show(Clk{rep}) + " after update " + std::to_string(n.applied) + ", primary was at total " + str128(n.expect[n.applied].first));
        c.check(rep.sec_as_i() >= 0 && rep.sec_as_i() < S::max_in_day, "replica_unnormalised", show(Clk{rep}));
      }, n.replica);
      n.expect.erase(n.applied);
      CNT("repl.applied");
      c.obs((u64)total(n.replica));
    }
  }

  // ---- network ----
  void post(Msg m, int mode, Rng& r, i64 delay) {
    m.tie = r.next();
    m.due = T + delay;
    if (mode == 1) { CNT("fault.msg_dropped"); ++c.faults; return; }
    net.push_back(m);
    if (delay > 0) { CNT("fault.msg_delayed"); ++c.faults; }
    if (mode == 2) {
      m.tie = r.next();
      m.due = T + (delay ? (i64)r.below((u64)delay * 2 + 1) : (i64)r.below(1000000000));
      net.push_back(m);
      CNT("fault.msg_duplicated");
      ++c.faults;
    }
  }
  void deliver(i64 upto) {
    for (;;) {
      size_t b = net.size();
      for (size_t i = 0; i < net.size(); ++i)
        if (net[i].due <= upto && (b == net.size() || net[i].due < net[b].due || (net[i].due == net[b].due && net[i].tie < net[b].tie))) b = i;
      if (b == net.size()) return;
      Msg m = net[b];
      if (b) { CNT("fault.msg_reordered"); ++c.faults; }
      net.erase(net.begin() + (long)b);
      if (m.kind == 0) arrive(m.stamp);
      else deliver_interval(nodes[(size_t)m.node], m);
    }
  }

  // ---- leap seconds (C05) ----
  void leap(const Clk& k) {
    std::visit([&](auto& d) {
      i64 mjd = d.mjd().as_underlying_type();
      if (mjd < 41317) return;
      Civil cv = m_civil(mjd);
      int e = m_tai_utc(mjd);
      int a = dat(d), b = dat(modified_julian_day{mjd}), g = dat(year{(int)cv.y}, month{cv.m});
      c.check(a == e && b == e && g == e, "tai_utc", "TAI-UTC at " + show(Clk{d}) + " (" + std::to_string(cv.y) + "/" + std::to_string(cv.m) + "/" + std::to_string(cv.d) + ") is " + std::to_string(a) + " by timestamp, " + std::to_string(b) + " by day, " + std::to_string(g) + " by month; published " + std::to_string(e));
      c.obs((u64)a);
      c.sig(mix(17, (u64)e * 64 + (u64)(cv.d == 1) + 2 * (u64)(m_tai_utc(mjd - 1) != e) + 4 * (u64)(m_tai_utc(mjd + 1) != e)));
    }, k);
  }

  // ---- time scales (C19): the clock shows UTC; TAI, TT, GPS time and Julian dates are derived from it ----
  template <class S> void scales_t(const datetime<S>& d) {
    const i64 mjd = d.mjd().as_underlying_type(), F = FAC[resof<S>()], U = UPD(resof<S>());
    if (mjd < 41317 || mjd > MJD_HI - 2) return;
    const int e = m_tai_utc(mjd), o = dat(d);
    LAZY(at, show(Clk{d}) + " UTC");
    const i128 t = total(d);
    auto eq = [&](const datetime<S>& x, i128 want, const char* cls, const char* what) { c.check(total(x) == want && x.sec_as_i() >= 0 && x.sec_as_i() < U, cls, at + std::string(what) + show(Clk{x}) + ", expected " + str128(want - t) + " units later"); };
    datetime<S> tai = d;
    tai.add_seconds(S{(long)(o * F)});
    eq(tai, t + (i128)e * F, "tai", " in TAI is ");
    datetime<S> b = tai, u = tai;
    b.remove_seconds(S{(long)(dat(tai) * F)});
    u.remove_seconds(S{(long)(dat(b) * F)});
    eq(u, t, "utc_back", " to TAI and back is ");
    datetime<S> gps = tai;
    gps.remove_seconds(S{(long)(19 * F)});
    eq(gps, t + (i128)(e - 19) * F, "gps", " in GPS time is ");
    if (gps.mjd().as_underlying_type() >= 44244) {
      S sow{0};
      long sows = 0;
      gps_week w = gps.as_gps_wsow(sow), w2 = gps.as_gps_wsow(sows);
      i128 since = total(gps) - (i128)44244 * U;
      bool ok = w.as_underlying_type() == (i64)(since / (7 * U)) && sow.as_underlying_type() == (i64)(since % (7 * U)) && w2 == w && sows == (i64)(since % (7 * U)) / F;
      c.check(ok, "gps_week", at + " is second " + std::to_string(sow.as_underlying_type()) + " / " + std::to_string(sows) + " of GPS week " + std::to_string(w.as_underlying_type()) + " / " + std::to_string(w2.as_underlying_type()));
      const datetime<S> epoch{modified_julian_day{jan61980}, S{0}}, r{w, sow};
      c.check((i128)gps.delta_sec(epoch).as_underlying_type() == since && r == gps, "gps_epoch", at + " in GPS time is " + std::to_string(gps.delta_sec(epoch).as_underlying_type()) + " units after the GPS epoch; from week and second " + show(Clk{r}));
      datetime<S> back = r;
      back.add_seconds(S{(long)(19 * F)});
      back.remove_seconds(S{(long)(e * F)});
      eq(back, t, "gps_back", " to GPS week and second and back is ");
    }
    typedef std::conditional_t<std::is_same_v<S, seconds>, milliseconds, S> Q;
    datetime<Q> tt = tai.template cast_to<Q>();
    const i64 QF = FAC[resof<Q>()];
    tt.add_seconds(Q{(long)std::lround(tt_minus_tai * (double)QF)});
    const i128 ett = (t + (i128)e * F) * (QF / F) + 32184 * QF / 1000;
    c.check(total(tt) == ett, "tt", at + " in TT is " + show(Clk{tt}) + ", expected total " + str128(ett));
    // Julian dates, centuries and years, as doubles
    const long double day = (long double)ett / (long double)UPD(resof<Q>()), T = (day - 51544.5L) / 36525.0L;
    auto near = [&](double x, long double w, long double tol, const char* what) { c.check(fabsl((long double)x - w) <= tol, "julian", at + ": " + what + " is " + num(x) + ", expected " + num((double)w)); };
    near(tt.as_mjd() + mjd0_jd, day + 2400000.5L, 3e-9L, "Julian date (TT)");
    near((tt.as_mjd() - j2000_mjd) / days_in_julian_cent, T, 1e-12L, "Julian centuries since J2000 (from MJD)");
    near((tt.as_mjd() + mjd0_jd - j2000_jd) / days_in_julian_cent, T, 1e-12L, "Julian centuries since J2000 (from JD)");
    near((tt.as_mjd() - j2000_mjd) / days_in_julian_year, T * 100.0L, 1e-10L, "Julian years since J2000");
    near(d.sec().fractional_days() * sec_per_day, (long double)d.sec_as_i() / F, 1e-9L, "second of day");
    // elapsed time between this clock and the others counts the leap seconds between them
    for (auto& x : nodes) if (std::holds_alternative<datetime<S>>(x.clk)) {
      const datetime<S>& y = std::get<datetime<S>>(x.clk);
      const i64 ym = y.mjd().as_underlying_type();
      if (ym < 41317 || ym > MJD_HI - 2) continue;
      i128 el = (i128)d.delta_sec(y).as_underlying_type() + (i128)(dat(d) - dat(y)) * F, want = t - total(y) + (i128)(e - m_tai_utc(ym)) * F;
      c.check(el == want, "elapsed", "time elapsed from " + show(Clk{y}) + " UTC to " + at + " is " + str128(el) + ", expected " + str128(want));
    }
    c.obs((u64)total(tai));
    c.obs((u64)total(tt));
    i64 sod = d.sec_as_i() / F;
    c.sig(mix(19, mix((u64)e * 4 + (u64)resof<S>(), (u64)(sod < 64 ? sod : sod >= 86400 - 64 ? 86400 - sod + 100 : 200) * 8 + (u64)((m_tai_utc(mjd - 1) != e) + 2 * (m_tai_utc(mjd + 1) != e)))));
  }

  void observe(Node& n) {
    if (c.is("C19")) std::visit([&](auto& d) { scales_t(d); }, n.clk);
    if (c.is("C02")) std::visit([&](auto& d) { read_t(d); }, n.clk);
    if (c.is("C05")) leap(n.clk);
  }

  Node* node(i64 i) { return nodes.empty() ? nullptr : &nodes[(size_t)fmod_(i, (i64)nodes.size())]; }

  void step(const Step& s) {
    Node* n = s.op == INIT || s.op == TICK || s.op == FLUSH || s.op == DIVIDE ? nullptr : node(s.a[0]);
    if (!n && s.op != INIT && s.op != TICK && s.op != FLUSH && s.op != DIVIDE) return;
    switch (s.op) {
      case INIT: {
        if (nodes.size() >= 8) return;
        Node x;
        x.res = (int)fmod_(s.a[1], 3);
        i64 mjd = s.a[2] < MJD_LO ? MJD_LO : s.a[2] > MJD_HI ? MJD_HI : s.a[2];
        i64 tod = fmod_(s.a[3], UPD(2)) / (1000000 / FAC[x.res]);
        with_res(x.res, [&](auto z) { typedef decltype(z) S; x.clk = datetime<S>(modified_julian_day{mjd}, S{tod}); });
        x.model = (i128)mjd * UPD(x.res) + tod;
        if (c.is("C01")) c.check(total(x.clk) == x.model, "init", "clock built at mjd " + std::to_string(mjd) + " tod " + std::to_string(tod) + " is " + show(x.clk));
        x.model = total(x.clk);
        nodes.push_back(x);
        observe(nodes.back());
        c.obs((u64)total(x.clk));
        break;
      }
      case TICK: {
        i64 dt = s.a[0] < 0 ? 0 : s.a[0];
        T += dt;
        c.simtime += (double)dt * 1e-6;
        Rng r((u64)s.a[1]);
        for (auto& x : nodes) {
          if (x.stalled) { x.missed += dt; continue; }
          // each node's oscillator runs at its own rate (clock skew), and it uses its own calls to advance
          i64 skew = r.chance(1, 3) ? (i64)(((i128)dt * r.range(-200, 200)) / 1000000) : 0;
          if (skew) { CNT("fault.clock_skew"); ++c.faults; }
          i64 amt = (dt + skew) / (1000000 / FAC[x.res]);
          int how = (int)r.below(NHOW);
          adjust(x, how, amt, r.chance(1, 2) ? 0 : r.range(-50, 50), r.range(-999, 999));
          observe(x);
        }
        deliver(T);
        break;
      }
      case JUMP: {
        i64 mjd = s.a[2] < MJD_LO ? MJD_LO : s.a[2] > MJD_HI ? MJD_HI : s.a[2];
        i128 tgt = (i128)mjd * UPD(n->res) + fmod_(s.a[3], UPD(2)) / (1000000 / FAC[n->res]);
        i128 d = tgt - total(n->clk);
        if (d < 0) CNT("fault.clock_jump_back"); else CNT("fault.clock_jump_forward");
        ++c.faults;
        adjust(*n, (int)fmod_(s.a[1], NHOW), d, s.a[4], s.a[5]);
        observe(*n);
        break;
      }
      case ADJ: {
        CNT("fault.clock_adjusted");
        ++c.faults;
        adjust(*n, (int)fmod_(s.a[1], NHOW), s.a[2], s.a[3], s.a[4]);
        observe(*n);
        break;
      }
      case READ: observe(*n); break;
      case BURST: {
        Rng r((u64)s.a[1]);
        burst = true;
        struct Off { bool& b; ~Off() { b = false; } } off{burst};
        const i64 count = fmod_(s.a[2], 1025);
        const u64 hows = r.next();
        for (i64 i = 0; i < count; ++i) {
          int how;
          do how = (int)r.below(NHOW); while (hows % (1ULL << NHOW) && !(hows >> how & 1));
          i128 amt;
          if (s.a[3] & 1) amt = pick_amount(r);
          else {  // any instant at all (for TAI-UTC: from 1972 on)
            const i128 from = c.is("C05") || c.is("C19") ? (i128)41317 * UPD(n->res) : lo(n->res), width = hi(n->res) - from;
            amt = from + (i128)(((unsigned __int128)r.next() * (unsigned __int128)width) >> 64) - total(n->clk);
          }
          const Clk before = n->clk;
          adjust(*n, how, amt, r.chance(1, 2) ? 0 : r.range(-50, 50), r.range(-999999, 999999));
          observe(*n);
          if (c.is("C03")) {  // against itself before the adjustment and against the other nodes' clocks
            pair(n->clk, before);
            for (auto& x : nodes) pair(x.clk, n->clk);
          }
          if (c.is("C04")) { replicate(*n, (int)(n - &nodes[0]), 0, r.next(), 0); deliver(T); }
        }
        cnt("fault.clock_adjusted", (u64)count);
        c.faults += (u64)count;
        break;
      }
      case STALL: if (!n->stalled) { n->stalled = true; CNT("fault.node_stalled"); ++c.faults; } break;
      case RESUME:
        if (n->stalled) {
          n->stalled = false;
          i64 m = n->missed;
          n->missed = 0;
          adjust(*n, (int)fmod_(s.a[1], NHOW), m / (1000000 / FAC[n->res]), 0, 0);
          observe(*n);
        }
        break;
      case SEND: {
        Rng r((u64)s.a[2]);
        Msg m;
        m.kind = 0;
        m.node = 0;
        m.stamp = n->clk;
        m.seq = m.days = m.secs = 0;
        post(m, (int)fmod_(s.a[1], 3), r, s.a[3] < 0 ? 0 : s.a[3]);
        break;
      }
      case REPL: replicate(*n, (int)fmod_(s.a[0], (i64)nodes.size()), (int)fmod_(s.a[1], 3), (u64)s.a[2], s.a[3] < 0 ? 0 : s.a[3]); break;
      case CKPT: n->cache = std::visit([&](auto& d) { return take_t(d, (int)fmod_(s.a[1], 11)); }, n->clk); CNT("ckpt.written"); break;
      case SYNC: if (n->cache.form >= 0) { n->disk = n->cache; CNT("ckpt.synced"); } break;
      case CRASH: {
        CNT("fault.crash");
        ++c.faults;
        if (n->has_rep) {  // primary crash ends the replication session; replica state is rebuilt by a full transfer
          n->has_rep = false;
          n->inbox.clear();
          n->expect.clear();
          for (size_t i = net.size(); i-- > 0;) if (net[i].kind == 1 && &nodes[(size_t)net[i].node] == n) net.erase(net.begin() + (long)i);
        }
        bool lost = n->cache.form >= 0 && (s.a[1] & 1);
        if (lost) CNT("fault.unsynced_write_lost");
        Reading r = lost ? n->disk : n->cache.form >= 0 ? n->cache : n->disk;
        n->cache = n->disk = r;
        n->stalled = false;
        n->missed = 0;
        if (r.form < 0) break;
        Clk back = std::visit([&](auto& d) { typedef typename std::decay_t<decltype(d)>::sec_type S; return Clk{restore_t(r, S{})}; }, n->clk);
        i128 got = total(back);
        if (c.is("C02")) {
          i64 g = (r.form == 4 || r.form == 10) ? FAC[n->res] : 1;  // units of the clock per unit of the reading
          i128 err = got - r.tot;
          static const char* FN[] = {"mjd+tod", "ymd+tod", "ydoy+tod", "gps week+sow", "gps week+whole sow", "ymd+hms", "ydoy+hms", "ymd+hm+fractional s", "us copy", "ydoy+hm+fractional s", "s copy"};
          c.check(err > -g && err < g, "restore", std::string("clock restored from ") + FN[r.form] + " (" + std::to_string(r.v[0]) + " " + std::to_string(r.v[1]) + " " + std::to_string(r.v[2]) + " " + std::to_string(r.v[3]) + " " + std::to_string(r.v[4]) + " " + std::to_string(r.v[5]) + " " + std::to_string(r.d) + ") is " + show(back) + ", was total " + str128(r.tot));
          std::visit([&](auto& d) { c.check(d.sec_as_i() >= 0 && d.sec_as_i() < std::decay_t<decltype(d)>::sec_type::max_in_day, "restore_unnormalised", show(back)); }, back);
        }
        n->clk = back;
        n->model = got;
        if (got < lo(n->res) || got > hi(n->res)) with_res(n->res, [&](auto z) { typedef decltype(z) S; n->clk = datetime<S>(modified_julian_day{51544}, S{0}); n->model = total(n->clk); });
        CNT("restored");
        observe(*n);
        c.obs((u64)total(n->clk));
        break;
      }
      case FLUSH:
        for (auto& x : net) if (x.due > T) T = x.due;
        deliver(T);
        if (c.is("C03")) sort_log();
        log.clear();
        break;
      case DIVIDE: {
        if (!c.is("C04")) break;
        i64 days = fmod_(s.a[0], 1001), div = s.a[2] == INT64_MIN ? 1 : s.a[2] < 0 ? -s.a[2] : s.a[2];
        if (div < 1) div = 1;
        if (div > 2147483647) div = 2147483647;
        with_res((int)fmod_(s.a[3], 3), [&](auto z) {
          typedef decltype(z) S;
          i64 secs = days == 1000 ? 0 : fmod_(s.a[1], S::max_in_day);
          datetime_interval<S> iv{modified_julian_day{days}, S{secs}};
          auto q = iv / (int)div;
          i128 tot = (i128)days * S::max_in_day + secs, qt = (i128)q.days().as_underlying_type() * S::max_in_day + q.sec().as_underlying_type();
          i128 err = qt * div - tot;
          c.check(err <= 2 * (i128)div && err >= -2 * (i128)div, "interval_divide", "(" + std::to_string(days) + " d, " + std::to_string(secs) + " " + RN[resof<S>()] + ") / " + std::to_string(div) + " gives (" + std::to_string(q.days().as_underlying_type()) + " d, " + std::to_string(q.sec().as_underlying_type()) + ")");
          c.check(q.sec().as_underlying_type() >= 0 && q.sec().as_underlying_type() < S::max_in_day, "interval_seconds", "quotient has a seconds part outside one day");
          c.obs((u64)qt);
        });
        break;
      }
    }
    if (c.is("C01"))
      for (auto& x : nodes) c.check(total(x.clk) == x.model, "spooky", "a clock changed although nothing adjusted it: " + show(x.clk));
  }
};

void scn_init() {}

void scn_exec(Ctx& c) {
  World w(c);
  for (auto& s : c.plan.steps) { dirty_stack(); if (!other(c, s)) w.step(s); }
}

// ---- generation ----
static i64 pick_tod(Rng& r) {  // microseconds of day, biased to edges
  static const i64 us = 86400000000LL;
  switch (r.below(9)) {
    case 0: return 0;
    case 1: return us - 1;
    case 2: return us - 1000;
    case 3: return us - 1000000;
    case 4: { i64 b = r.range(0, 23) * 3600000000LL + r.range(0, 59) * 60000000LL; return fmod_(b + (r.chance(1, 2) ? 0 : -1), us); }
    case 5: return r.range(0, 86399) * 1000000;
    case 6: return r.range(0, 86399) * 1000000 + r.range(0, 999) * 1000;
    case 7: return fmod_(r.range(0, 86399) * 1000000 + r.range(-3, 3), us);
    default: return (i64)r.below((u64)us);
  }
}
static i64 pick_mjd(Rng& r, bool leapbias) {
  int z = (int)r.below(leapbias ? 4 : 14);
  switch (z) {
    case 0: case 1: {
      if (z == 1 && leapbias && r.chance(1, 2)) { i64 y = r.range(1972, 2030); int m = (int)r.range(1, 12); return m_mjd(y, m, 1) + r.range(-1, 1); }
      auto& e = r.pick(LEAPS);
      i64 b = m_mjd(e.y, e.m, 1);
      if (z == 0) return b + r.range(-1, 1);
      return b + r.range(-35, 35);
    }
    case 2: return r.range(41317, 60000);
    case 3: return leapbias ? r.range(41317, MJD_HI) : m_mjd(r.range(1, 9999), 12, 31) + r.range(0, 1);
    case 4: { i64 y = r.range(1, 9998); return m_mjd(y, 2, 28) + r.range(0, 2); }
    case 5: { i64 y = r.range(1, 99) * 100; return m_mjd(y, (int)(r.chance(1, 2) ? 2 : 12), 28) + r.range(0, 4); }
    case 6: { i64 y = r.range(1, 9999); int m = (int)r.range(1, 12); return m_mjd(y, m, m_mdays(y, m)) + r.range(0, 1); }
    case 7: return 44244 + r.range(0, 2500) * 7 + r.range(-1, 1);
    case 8: return 44244 + r.range(-2, 8);
    case 9: { static const i64 sp[] = {0, -1, 1, 15384, 15385, 15386, 15020, 51544, 40587, 88069, 88127, 88128, 88434, MJD_LO, MJD_LO + 1, MJD_HI, MJD_HI - 1, -2400001 + 2400000}; return r.pick(sp); }
    case 10: return m_mjd(r.range(1, 9999), 1, 1) + r.range(330, 365);
    case 11: case 12: return r.range(40000, 65000);
    default: return r.range(MJD_LO, MJD_HI);
  }
}
static i64 pick_amount(Rng& r) {
  i64 v;
  switch (r.below(8)) {
    case 0: v = r.range(0, 3); break;
    case 1: v = UPD((int)r.below(3)) * r.range(0, 5) + r.range(-1, 1); break;
    case 2: v = UPD((int)r.below(3)) * r.range(0, 400000) + r.range(-2, 2); break;
    case 3: v = (1LL << r.range(0, 57)) + r.range(-1, 1); break;
    case 4: v = r.logmag(20); break;
    case 5: v = r.logmag(40); break;
    case 6: v = 1000000000LL * r.range(0, 1000); break;
    default: v = r.logmag(57);
  }
  return r.chance(1, 2) ? v : -v;
}
static i64 pick_k(Rng& r) {
  if (r.chance(1, 2)) return 0;
  i64 v = r.chance(3, 4) ? r.range(0, 40) : r.chance(3, 4) ? r.range(0, 99999) : r.range(0, 87000000);
  return r.chance(1, 2) ? v : -v;
}
static i64 pick_dt(Rng& r, int scale) {
  switch (scale) {
    case 0: return r.range(1, 5000000);
    case 1: return r.range(1, 7200) * 1000000LL + r.range(0, 999999);
    case 2: return r.range(1, 100) * 86400000000LL + r.range(-2, 2);
    case 3: return r.logmag(52);
    default: return r.range(1, 5) * 365 * 86400000000LL + r.logmag(38);
  }
}

Plan scn_gen(const std::string& prop, u64 seed) {
  Plan p;
  p.prop = prop;
  p.seed = seed;
  Rng r(seed);
  bool leapbias = prop == "C05" || prop == "C19";
  int nn = (int)r.range(1, 4), ns = (int)r.range(5, 60), scale = (int)r.below(5);
  // swarm: enable a random subset of the adjustment calls
  std::vector<int> hows;
  for (int i = 0; i < NHOW; ++i) if (r.chance(1, 2)) hows.push_back(i);
  if (hows.empty()) hows.push_back((int)r.below(NHOW));
  auto add = [&](int op, std::initializer_list<i64> a) {
    Step s;
    s.op = op;
    int i = 0;
    for (i64 v : a) s.a[i++] = v;
    p.steps.push_back(s);
  };
  for (int i = 0; i < nn; ++i) add(INIT, {i, (i64)r.below(3), pick_mjd(r, leapbias), pick_tod(r)});
  auto how = [&] { return (i64)hows[r.below(hows.size())]; };
  auto delay = [&] { return r.chance(1, 3) ? 0 : r.logmag(scale < 2 ? 33 : 50); };
  i64 base_mjd = pick_mjd(r, leapbias), base_tod = pick_tod(r);  // clusters stamps around one instant
  for (int i = 0; i < ns; ++i) {
    i64 n = (i64)r.below((u64)nn);
    int w = (int)r.below(100);
    auto jump = [&] {
      if (r.chance(1, 3)) add(JUMP, {n, how(), base_mjd + r.range(-1, 1), fmod_(base_tod + r.range(-2, 2) * (r.chance(1, 2) ? 1 : r.chance(1, 2) ? 1000 : 1000000), 86400000000LL), pick_k(r), r.range(-999999, 999999)});
      else add(JUMP, {n, how(), pick_mjd(r, leapbias), pick_tod(r), pick_k(r), r.range(-999999, 999999)});
    };
    if (prop == "C01") {
      if (w < 25) add(TICK, {pick_dt(r, scale), (i64)(r.next() >> 1)});
      else if (w < 55) jump();
      else if (w < 88) add(ADJ, {n, how(), pick_amount(r), pick_k(r), r.range(-999999, 999999)});
      else if (w < 92) add(STALL, {n});
      else if (w < 96) add(RESUME, {n, how()});
      else add(CRASH, {n, (i64)r.below(2)});
      if (r.chance(1, 20)) { add(CKPT, {n, (i64)r.below(11)}); add(SYNC, {n}); }
    } else if (prop == "C02") {
      if (w < 15) add(TICK, {pick_dt(r, scale), (i64)(r.next() >> 1)});
      else if (w < 45) jump();
      else if (w < 55) add(ADJ, {n, how(), pick_amount(r), pick_k(r), r.range(-999, 999)});
      else if (w < 75) add(CKPT, {n, (i64)r.below(11)});
      else if (w < 83) add(SYNC, {n});
      else add(CRASH, {n, (i64)r.below(4) == 0});
    } else if (prop == "C03") {
      if (w < 15) add(TICK, {pick_dt(r, scale), (i64)(r.next() >> 1)});
      else if (w < 40) jump();
      else if (w < 50) add(ADJ, {n, how(), r.range(-2, 2), 0, 0});
      else if (w < 96) add(SEND, {n, r.chance(3, 4) ? 0 : r.range(1, 2), (i64)(r.next() >> 1), delay()});
      else add(FLUSH, {});
    } else if (prop == "C04") {
      if (w < 15) add(TICK, {pick_dt(r, scale), (i64)(r.next() >> 1)});
      else if (w < 40) jump();
      else if (w < 55) add(ADJ, {n, how(), pick_amount(r), pick_k(r), 0});
      else if (w < 86) add(REPL, {n, r.chance(2, 3) ? 0 : r.range(1, 2), (i64)(r.next() >> 1), delay()});
      else if (w < 89) add(CRASH, {n, 1});
      else if (w < 93) add(FLUSH, {});
      else add(DIVIDE, {r.range(0, 1000), r.chance(1, 4) ? 0 : r.chance(1, 4) ? -1 : (i64)r.below(86400000000ULL), r.chance(1, 2) ? r.range(1, 40) : 1 + r.logmag(31), (i64)r.below(3)});
    } else {
      if (w < 30) add(TICK, {pick_dt(r, scale), (i64)(r.next() >> 1)});
      else if (w < 80) jump();
      else if (w < 94) add(ADJ, {n, how(), pick_amount(r), 0, 0});
      else if (w < 97) add(STALL, {n});
      else add(RESUME, {n, how()});
    }
  }
  if (r.chance(1, 2)) {
    i64 n = (i64)r.below((u64)nn), count = prop == "C02" ? r.range(4, 60) : prop == "C01" ? r.range(10, 900) : r.range(10, 200);
    const size_t at = (size_t)nn + r.below(p.steps.size() - (size_t)nn + 1);
    add(BURST, {n, (i64)(r.next() >> 1), count, (i64)r.below(2)});
    std::rotate(p.steps.begin() + (long)at, p.steps.end() - 1, p.steps.end());
  }
  add(FLUSH, {});
  return p;
}
