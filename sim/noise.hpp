// What other parts of the application do with the library meanwhile: calls of every family with values of their own.
// Their results are thrown away; they must not change what the simulated system sees. A step OTHER makes a few of them.
#pragma once
#include <errno.h>
#include <fenv.h>
#include <locale.h>
#include <time.h>
#include <iomanip>
#include <iostream>
#include <locale>
#include "records.hpp"
#include "dtfund.hpp"

namespace others {
using namespace ngpt;

inline const char* other_text(const std::string& s) {
  static char b[4096];
  size_t n = s.size() < sizeof b - 1 ? s.size() : sizeof b - 1;
  memcpy(b, s.data(), n);
  b[n] = 0;
  return b;
}
template <class S> void other_clock(Rng& r, u64& keep) {
  const i64 day = S::max_in_day;
  modified_julian_day m{rnd_mjd(r)};
  datetime<S> a{m, S{(typename S::underlying_type)r.range(0, day - 1)}};
  datetime<S> b{modified_julian_day{rnd_mjd(r)}, S{(typename S::underlying_type)r.range(0, day - 1)}};
  switch (r.below(9)) {
    case 0: a.add_seconds(S{(typename S::underlying_type)r.logmag(36)}); break;
    case 1: a.remove_seconds(S{(typename S::underlying_type)r.logmag(36)}); break;
    case 2: keep += (u64)(a < b) + (u64)(a == b) * 2 + (u64)(a > b); break;
    case 3: { auto v = a.delta_date(b); keep += (u64)v.days().as_underlying_type(); b += v; break; }
    case 4: keep += (u64)a.delta_sec(b).as_underlying_type(); break;
    case 5: { auto y = a.as_ymd(); auto d = b.as_ydoy(); keep += (u64)y.__year.as_underlying_type() + (u64)d.__doy.as_underlying_type(); break; }
    case 6: { S sow; keep += (u64)a.as_gps_wsow(sow).as_underlying_type(); long l; keep += (u64)b.as_gps_wsow(l).as_underlying_type(); break; }
    case 7: keep += (u64)std::get<1>(a.as_hmsf()).as_underlying_type() + (u64)(i64)a.as_mjd(); break;
    default: keep += (u64)a.template cast_to<seconds>().sec_as_i() + (u64)b.template cast_to<microseconds>().sec_as_i();
  }
}
inline void other_call(Rng& r) {
  static volatile u64 sink;
  u64 keep = 0;
  try {
    switch (r.below(8)) {
      case 0: case 1: {  // reads a record, well-formed or not
        int kind = (int)r.below(5);
        Style st = rnd_style(r);
        if (kind == K_YOD_HMS) st = yod_style(st);
        std::string t = render(kind, rnd_fields(r), st);
        if (r.chance(1, 4)) t.resize(r.below(t.size() + 1));
        if (r.chance(1, 8)) t = r.chance(1, 2) ? "2015-02-30 10:00:00" : "2015-13-01 00:00:00";
        keep += (u64)call_reader(kind, (int)r.below(3), other_text(t), r.chance(1, 2)).sec;
        break;
      }
      case 2: {  // writes one
        i64 m = rnd_mjd(r);
        int w = (int)r.below(3);
        auto f = [&](auto d) { return w == 0 ? strftime_ymd_hms(d) : w == 1 ? strftime_ymd_hmfs(d, '/') : d.stringify(); };
        modified_julian_day mj{m};
        switch (r.below(3)) {
          case 0: keep += f(datetime<seconds>{mj, seconds{r.range(0, 86399)}}).size(); break;
          case 1: keep += f(datetime<milliseconds>{mj, milliseconds{r.range(0, 86399999)}}).size(); break;
          default: keep += f(datetime<microseconds>{mj, microseconds{r.range(0, 86399999999LL)}}).size();
        }
        break;
      }
      case 3: {  // looks a name up
        std::string n = mcased(r.chance(1, 2) ? M_LONG[r.below(12)] : std::string(M_LONG[r.below(12)]).substr(0, 3), (int)r.below(36));
        if (r.chance(1, 4)) n[r.below(n.size())] = (char)r.range(32, 126);
        month m{other_text(n)};
        keep += (u64)m.as_underlying_type() + (u64)m.short_name()[0];
        break;
      }
      case 4: {  // calendar
        int y = (int)r.range(1, 9999), mo = (int)r.range(1, r.chance(1, 6) ? 13 : 12), d = (int)r.range(1, 31);
        keep += (u64)year{y}.is_leap() + (u64)day_of_month{d}.is_valid(year{y}, month{(int)r.range(1, 12)}) + (u64)day_of_year{(int)r.range(0, 367)}.is_valid(year{y});
        auto m = cal2mjd(year{y}, month{mo}, day_of_month{d});
        keep += (u64)m.to_ydoy().__doy.as_underlying_type() + (u64)m.to_ymd().__dom.as_underlying_type();
        break;
      }
      case 5:  // TAI-UTC
        keep += (u64)dat(year{(int)r.range(1972, 2100)}, month{(int)r.range(1, 12)}) + (u64)dat(modified_julian_day{r.range(41317, 70000)});
        break;
      case 6:
        switch (r.below(3)) {
          case 0: other_clock<seconds>(r, keep); break;
          case 1: other_clock<milliseconds>(r, keep); break;
          default: other_clock<microseconds>(r, keep);
        }
        break;
      default: {  // stopwatches
        microseconds us{(microseconds::underlying_type)r.logmag(50)};
        milliseconds ms = cast_to<microseconds, milliseconds>(us);
        keep += (u64)std::get<1>(us.to_hmsf()).as_underlying_type() + (u64)std::get<2>(ms.to_hmsf()).as_underlying_type() + (u64)(i64)us.fractional_days();
        hours h{(int)r.below(3000)};
        keep += (u64)h.remove_days() + (u64)h.as_underlying_type();
      }
    }
  } catch (...) {}
  sink = sink + keep;
}

// What other parts of the application do to the process's state. It lasts until another such step or the end of the run.
struct Punct : std::numpunct<char> {
  char dp, ts; std::string g;
  Punct(char d, char t, std::string g_) : dp(d), ts(t), g(g_) {}
  char do_decimal_point() const override { return dp; }
  char do_thousands_sep() const override { return ts; }
  std::string do_grouping() const override { return g; }
};
inline void restore_state() {
  setlocale(LC_ALL, "C");
  uselocale(LC_GLOBAL_LOCALE);
  std::locale::global(std::locale::classic());
  unsetenv("TZ"); unsetenv("LANG"); unsetenv("LC_ALL"); unsetenv("LC_NUMERIC");
  tzset();
  std::cout.copyfmt(std::ios(nullptr));
  std::cout.clear();
  feclearexcept(FE_ALL_EXCEPT);
  errno = 0;
  state_reset() = nullptr;
}
inline void change_state(i64 what, i64 a, i64 b) {
  static const char* const LN[] = {"de_DE.UTF-8", "tr_TR.UTF-8", "tr_TR.ISO-8859-9", "fr_FR.UTF-8", "de_DE.ISO-8859-1", "C"};
  static const int CAT[] = {LC_ALL, LC_NUMERIC, LC_CTYPE, LC_TIME};
  static locale_t tl[6] = {};
  static std::locale* xl[5] = {};
  if (!xl[0]) {
    for (int i = 0; i < 6; ++i) tl[i] = newlocale(LC_ALL_MASK, LN[i], (locale_t)0);
    const std::locale& c = std::locale::classic();
    xl[0] = new std::locale(c, new Punct(',', '.', "\3"));
    xl[1] = new std::locale(c, new Punct('.', '\'', "\1"));
    xl[2] = new std::locale(c, new Punct(',', '.', ""));
    for (int i = 0; i < 2; ++i) try { xl[3 + i] = new std::locale(LN[i]); } catch (std::exception&) {}
  }
  state_reset() = restore_state;
  a &= 0xffffff;
  switch (what) {
    case 0: errno = (int[]){ERANGE, EINVAL, ENOMEM, EINTR}[a & 3]; return;
    case 1: setlocale(CAT[b & 3], LN[a % 6]); break;
    case 2: if (tl[a % 6]) uselocale(tl[a % 6]); break;
    case 3: if (xl[a % 5]) std::locale::global(*xl[a % 5]); break;
    case 4: setenv("TZ", (const char*[]){"UTC0", "EST5EDT", "<+14>-14", "CET-1CEST"}[a & 3], 1); tzset(); break;
    case 5: setenv((const char*[]){"LANG", "LC_ALL", "LC_NUMERIC", "LANG"}[b & 3], LN[a % 6], 1); break;
    case 6: std::cout << std::hex << std::showpos << std::setprecision(2) << std::setfill('*'); if (a & 1) std::cout.setstate(std::ios::failbit); break;
    case 7: feraiseexcept((int[]){FE_OVERFLOW, FE_INVALID, FE_DIVBYZERO, FE_INEXACT | FE_UNDERFLOW}[a & 3]); break;
    default: restore_state();
  }
}
}  // namespace others
// true if the step belonged to the others
inline bool other(Ctx& c, const Step& s) {
  if (s.op == OP_STATE) {
    others::change_state(s.a[0], s.a[1], s.a[2]);
    CNT("fault.process_state_changed");
    ++c.faults;
    return true;
  }
  if (s.op != OP_OTHER) return false;
  Rng r((u64)s.a[0]);
  int e = errno;
  for (i64 k = 1 + (i64)r.below(4); k > 0; --k) others::other_call(r);
  errno = e;
  CNT("fault.other_calls_of_the_library");
  ++c.faults;
  return true;
}
