// Instrumented with -fsanitize=thread: every memory access here and in the library is reported to the simulator.
#include "tasks.hpp"

#include <algorithm>
#include <cstdint>
#include <cstring>
#include <new>
#include <string>

#include "datetime_read.hpp"
#include "datetime_write.hpp"
#include "dtcalendar.hpp"

using namespace ngpt;
typedef long long ll;

static const ll FACT[3] = {1, 1000, 1000000};
static ll pmod(ll a, ll b) { ll r = a % b; return r < 0 ? r + b : r; }

struct Own {
  datetime<seconds> s{modified_julian_day{51544}, seconds{0}};
  datetime<milliseconds> m{modified_julian_day{51544}, milliseconds{0}};
  datetime<microseconds> u{modified_julian_day{51544}, microseconds{0}};
};
static Own* own[4];
static const int NSH = 6;
static Own* shared_;  // read only once the threads run
// more objects and texts that all threads read
struct Parts {
  datetime_interval<seconds> is{modified_julian_day{3}, seconds{4000}};
  datetime_interval<milliseconds> im{modified_julian_day{-3}, milliseconds{5000001}};
  datetime_interval<microseconds> iu{modified_julian_day{365}, microseconds{86399999999L}};
  month m{9}; year y{2016}; day_of_month d{29}; day_of_year yd{366}; gps_week w{1877}; hours h{50}; minutes mn{1501};
  seconds s{100000}; milliseconds ms{100000123}; microseconds us{100000123456L};
};
static const Parts* parts;
static const char* const SHTEXT[5][3] = {{"2015-12-30", "1999/01/01", "2015-13-01"}, {"2015-364", "2016-366 x", "2015-366"}, {"2015-12-30 12:09:30.25", "0001-01-01 00:00:00", "2015-12-30 12:09"}, {"2015-Dec-30 12:09:30.25", "1980 JAN 06 23:59:59", "2015-Foo-30 12:09:30"}, {"2015-364 12:09:30.25", "2016/366T00:00:59.999999", "2015-364 12"}};

void task_setup() {
  static const ll mj[NSH] = {40000, 51544, 57023, 57753, 60000, 15078};
  shared_ = new Own[NSH];
  parts = new Parts;
  for (int i = 0; i < NSH; ++i) {
    shared_[i].s = datetime<seconds>{modified_julian_day{mj[i]}, seconds{i * 17279}};
    shared_[i].m = datetime<milliseconds>{modified_julian_day{mj[i]}, milliseconds{i * 17279999LL}};
    shared_[i].u = datetime<microseconds>{modified_julian_day{mj[i]}, microseconds{i * 17279999999LL}};
  }
  for (int i = 0; i < 4; ++i) own[i] = new Own;
}
void task_begin(int t, ll mjd, ll us) {
  own[t]->s = datetime<seconds>{modified_julian_day{mjd}, seconds{us / 1000000}};
  own[t]->m = datetime<milliseconds>{modified_julian_day{mjd}, milliseconds{us / 1000}};
  own[t]->u = datetime<microseconds>{modified_julian_day{mjd}, microseconds{us}};
}

namespace {
struct Pr {  // own output: no shared state, no library formatting
  char* p;
  char* e;
  explicit Pr(char* o) : p(o), e(o + 500) { *p = 0; }
  void c(char x) { if (p < e) *p++ = x; *p = 0; }
  void n(ll v) {
    char b[24];
    int k = 0;
    bool neg = v < 0;
    unsigned long long u = neg ? 0ULL - (unsigned long long)v : (unsigned long long)v;
    do b[k++] = (char)('0' + u % 10); while (u /= 10);
    if (neg) c('-');
    while (k) c(b[--k]);
    c(' ');
  }
  void d(double v) { uint64_t u; unsigned char* s = (unsigned char*)&v; unsigned char* t = (unsigned char*)&u; for (int i = 0; i < 8; ++i) t[i] = s[i]; n((ll)u); }
  void s(const char* x) { while (*x) c(*x++); c(' '); }
};
template <class F> void with(Own& o, int r, F f) { if (r == 0) f(o.s); else if (r == 1) f(o.m); else f(o.u); }
template <class S> void readings(Pr& o, const datetime<S>& d) {
  auto ymd = d.as_ymd();
  o.n(ymd.__year.as_underlying_type()); o.n(ymd.__month.as_underlying_type()); o.n(ymd.__dom.as_underlying_type()); o.n(ymd.is_valid());
  auto yd = d.as_ydoy();
  o.n(yd.__year.as_underlying_type()); o.n(yd.__doy.as_underlying_type()); o.n(yd.is_valid());
  auto h = d.as_hmsf();
  o.n(std::get<0>(h).as_underlying_type()); o.n(std::get<1>(h).as_underlying_type()); o.n(std::get<2>(h).as_underlying_type()); o.n((ll)std::get<3>(h));
  o.d(d.as_mjd());
  long sow = 0;
  o.n(d.as_gps_wsow(sow).as_underlying_type()); o.n(sow);
  auto y2 = ymd.to_ydoy(); o.n(y2.__doy.as_underlying_type());
  auto y3 = yd.to_ymd(); o.n(y3.__month.as_underlying_type()); o.n(y3.__dom.as_underlying_type());
  o.n(cal2mjd(ymd.__year, ymd.__month, ymd.__dom).as_underlying_type());
  o.n(ydoy2mjd(yd.__year, yd.__doy).as_underlying_type());
}
template <class S> void fmt(Pr& o, int w, int sep, const datetime<S>& d) {
  if (w == 0) o.s((sep ? strftime_ymd_hms(d, (char)sep) : strftime_ymd_hms(d)).c_str());
  else if (w == 1) o.s((sep ? strftime_ymd_hmfs(d, (char)sep) : strftime_ymd_hmfs(d)).c_str());
  else o.s(d.stringify().c_str());
}
template <class S> void read(Pr& o, int k, const char* t, char** sp) {
  datetime<S> d{modified_julian_day{0}, S{0}};
  if (k == 0) d = strptime_ymd<S>(t, sp);
  else if (k == 1) d = strptime_ydoy<S>(t, sp);
  else if (k == 2) d = strptime_ymd_hms<S>(t, sp);
  else if (k == 3) d = strptime_yod_hms<S>(t, sp);
  else d = strptime_ydoy_hms<S>(t, sp);
  o.n(d.mjd().as_underlying_type()); o.n(d.sec_as_i());
  if (sp && *sp) o.n(*sp - t);
}
}  // namespace

void task_run(int op, const ll* a, const char* text, char* out) {
  Pr o(out);
  Own& me = *own[a[0] & 3];
  int r = (int)pmod(a[2], 3);
  try {
    switch (op) {
      case T_READ: {  // a1 kind, a2 res, a3 want stop
        char* stop = nullptr;
        char** sp = a[3] & 1 ? &stop : nullptr;
        int k = (int)pmod(a[1], 5);
        if (a[3] & 6) text = SHTEXT[k][(a[3] >> 1 & 3) - 1];  // a text that other threads read too
        if (r == 0) read<seconds>(o, k, text, sp);
        else if (r == 1) read<milliseconds>(o, k, text, sp);
        else read<microseconds>(o, k, text, sp);
        break;
      }
      case T_FMT: with(me, r, [&](auto& d) { fmt(o, (int)pmod(a[1], 3), (int)(a[3] & 127), d); }); break;
      case T_TICK:  // a1 amount in units, a2 res, a3 form
        with(me, r, [&](auto& d) {
          typedef typename std::decay<decltype(d)>::type::sec_type S;
          switch (pmod(a[3], 12)) {
            case 4: d.add_seconds(seconds{a[1] / FACT[r]}); break;
            case 5: d.add_seconds(milliseconds{a[1]}); break;
            case 6: d.add_seconds(microseconds{a[1]}); break;
            case 7: d.remove_seconds(seconds{a[1] / FACT[r]}); break;
            case 8: d.remove_seconds(milliseconds{a[1]}); break;
            case 9: d.remove_seconds(microseconds{a[1]}); break;
            case 10: d = d.add(modified_julian_day{a[1] % 7}, S{-a[1]}); break;
            case 11: d = d.add(modified_julian_day{-(a[1] % 7)}, microseconds{a[1]}); break;
          }
          // clocks stay between years 1 and 9999
          struct Keep { decltype(d)& d; ~Keep() { if (d.mjd() < modified_julian_day{-678575} || d.mjd() > modified_julian_day{2973483}) d = typename std::decay<decltype(d)>::type{modified_julian_day{51544}, S{1}}; } } keep{d};
          if (pmod(a[3], 12) >= 4) {}
          else if (pmod(a[3], 4) == 3) d += datetime_interval<S>{modified_julian_day{a[1] / S::max_in_day}, S{a[1] % S::max_in_day}};
          else if (pmod(a[3], 4) == 2) d.remove_seconds(S{a[1]});
          else d.add_seconds(S{a[1]});
          o.n(d.mjd().as_underlying_type()); o.n(d.sec_as_i());
        });
        break;
      case T_READINGS: with(me, r, [&](auto& d) { readings(o, d); }); break;
      case T_DAT: {  // own clock, and a month from the operands
        with(me, r, [&](auto& d) { if (d.mjd() >= modified_julian_day{41317}) { o.n(dat(d)); o.n(dat(d.mjd())); } });  // defined from 1972 on
        o.n(dat(year{(int)(1972 + pmod(a[1], 60))}, month{(int)(1 + pmod(a[3], 12))}));
        break;
      }
      case T_MONTH: {
        month m{text};
        o.n(m.as_underlying_type());
        o.s(m.short_name()); o.s(m.long_name());
        break;
      }
      case T_DELTA: {  // own clock against a shared one
        Own& sh = shared_[pmod(a[1], NSH)];
        auto f = [&](auto& d, const auto& e) {
          auto iv = d.delta_date(e);
          o.n(iv.days().as_underlying_type()); o.n(iv.sec().as_underlying_type());
          auto iv2 = delta_date(d, e);
          o.n(iv2.days().as_underlying_type()); o.n(iv2.sec().as_underlying_type());
          o.n(delta_sec(d, e).as_underlying_type());
          auto x = e;
          x += iv;
          o.n(x == d); o.n(d < e); o.n(d > e); o.n(d <= e); o.n(d >= e); o.n(d != e);
          auto q = datetime_interval<typename std::decay<decltype(d)>::type::sec_type>{modified_julian_day{pmod(a[3], 100)}, iv.sec()} / 7;
          o.n(q.days().as_underlying_type()); o.n(q.sec().as_underlying_type());
        };
        if (r == 0) f(me.s, sh.s); else if (r == 1) f(me.m, sh.m); else f(me.u, sh.u);
        o.n(delta_sec(me.s, sh.u).as_underlying_type());
        break;
      }
      case T_SHARED: {
        const Own& sh = shared_[pmod(a[1], NSH)];
        const Own& s2 = shared_[pmod(a[1] / 7, NSH)];
        auto both = [&](auto f) { if (r == 0) f(sh.s, s2.s, parts->is); else if (r == 1) f(sh.m, s2.m, parts->im); else f(sh.u, s2.u, parts->iu); };
        switch (pmod(a[3] / 3, 5)) {
          case 0: case 1: both([&](const auto& d, const auto&, const auto&) { readings(o, d); fmt(o, (int)pmod(a[3], 3), '-', d); }); break;
          case 2: both([&](const auto& d, const auto& e, const auto&) {
            if (d.mjd() >= modified_julian_day{41317}) { o.n(dat(d)); o.n(dat(d.mjd())); }
            o.n(d < e); o.n(d <= e); o.n(d > e); o.n(d >= e); o.n(d == e); o.n(d != e);
            auto iv = d.delta_date(e);
            o.n(iv.days().as_underlying_type()); o.n(iv.sec().as_underlying_type());
            o.n(delta_sec(d, e).as_underlying_type());
            o.n(d.delta_sec(e).as_underlying_type());
            auto z = d;
            z += iv;
            o.n(z.sec_as_i());
            o.n(delta_sec(sh.u, s2.s).as_underlying_type());
            o.n(d.template cast_to<seconds>().sec_as_i());
          });
          break;
          case 3: both([&](const auto& d, const auto&, const auto& iv) {
            o.n(iv.days().as_underlying_type()); o.n(iv.sec().as_underlying_type()); o.d(iv.as_mjd());
            auto q = iv / (int)(1 + pmod(a[1], 9));
            o.n(q.days().as_underlying_type()); o.n(q.sec().as_underlying_type());
            o.n(q < iv); o.n(q == iv); o.n(iv >= q);
            auto z = d;
            z += iv;
            o.n(z.mjd().as_underlying_type()); o.n(z.sec_as_i());
          });
          break;
          default: {
            const Parts& p = *parts;
            o.s(p.m.short_name()); o.s(p.m.long_name()); o.n(p.m.is_valid()); o.n(p.y.is_leap()); o.n(p.d.is_valid(p.y, p.m)); o.n(p.yd.is_valid(p.y)); o.n(p.w.is_valid());
            o.n(p.h.as_underlying_type()); o.n(p.mn.as_underlying_type());
            auto hm = p.us.to_hmsf(); o.n(std::get<0>(hm).as_underlying_type()); o.n(std::get<1>(hm).as_underlying_type()); o.n(std::get<2>(hm).as_underlying_type()); o.n((ll)std::get<3>(hm));
            double f = 0;
            o.n(p.ms.resolve_sec(f).as_underlying_type()); o.d(f);
            o.n(p.s.to_days()); o.n(p.ms.to_days()); o.n(p.us.to_days()); o.d(p.s.fractional_days()); o.d(p.ms.fractional_days()); o.d(p.us.fractional_days());
            o.d(p.us.to_fractional_seconds());
            o.n(static_cast<seconds>(p.us).as_underlying_type());
            o.n(p.us < microseconds{5}); o.n(p.ms == milliseconds{100000123});
            const ymd_date q{p.y, p.m, p.d}; const ydoy_date t{p.y, p.yd};
            o.n(q.to_ydoy().__doy.as_underlying_type()); o.n(t.to_ymd().__dom.as_underlying_type());
          }
        }
        break;
      }
      case T_CAST: {
        datetime<microseconds> x = me.s.cast_to<microseconds>();
        datetime<seconds> y = me.u.cast_to<seconds>();
        datetime<milliseconds> z = me.u.cast_to<milliseconds>();
        o.n(x.sec_as_i()); o.n(y.sec_as_i()); o.n(z.sec_as_i());
        o.n(cast_to<microseconds, milliseconds>(microseconds{a[1]}).as_underlying_type());
        break;
      }
      case T_NEW:  // build a clock from parts: a1 microseconds since MJD 40000, a2 res, a3 form
        with(me, r, [&](auto& d) {
          typedef typename std::decay<decltype(d)>::type::sec_type S;
          typedef typename std::decay<decltype(d)>::type D;
          ll days = 40000 + pmod(a[1] / 7919, 30000), tod = pmod(a[1] * 7919, S::max_in_day);
          D src{modified_julian_day{days}, S{tod}};
          auto ymd = src.as_ymd();
          auto yd = src.as_ydoy();
          auto h = src.as_hmsf();
          double fs = (double)std::get<2>(h).as_underlying_type() + (double)std::get<3>(h) / (double)FACT[r];
          S rest{tod % (60 * FACT[r])};
          S w{0};
          gps_week gw = src.as_gps_wsow(w);
          D z{modified_julian_day{0}, S{0}};
          switch (pmod(a[3], 10)) {
            case 0: z = D(ymd.__year, ymd.__month, ymd.__dom, S{tod}); break;
            case 1: z = D(ymd.__year, ymd.__month, ymd.__dom, std::get<0>(h), std::get<1>(h), rest); break;
            case 2: z = D(ymd.__year, ymd.__month, ymd.__dom, std::get<0>(h), std::get<1>(h), fs); break;
            case 3: z = D(yd.__year, yd.__doy, S{tod}); break;
            case 4: z = D(yd.__year, yd.__doy, std::get<0>(h), std::get<1>(h), rest); break;
            case 5: z = D(yd.__year, yd.__doy, std::get<0>(h), std::get<1>(h), fs); break;
            case 6: z = D(modified_julian_day{days}, std::get<0>(h), std::get<1>(h), rest); break;
            case 7: z = D(gw, w); break;
            case 8: z = D(ymd.__year, ymd.__month, day_of_month{(int)(pmod(a[1], 40))}, S{tod}); break;  // may not exist
            default: z = D(ymd.__year, month{(int)pmod(a[1], 15)}, ymd.__dom, std::get<0>(h), std::get<1>(h), rest);
          }
          o.n(z.mjd().as_underlying_type()); o.n(z.sec_as_i()); o.n(z == src);
        });
        break;
      case T_IVAL: {  // intervals: a1 amount, a2 res, a3 divisor
        with(me, r, [&](auto& d) {
          typedef typename std::decay<decltype(d)>::type::sec_type S;
          datetime_interval<S> i{modified_julian_day{pmod(a[1], 900)}, S{a[1] * 977}}, j{modified_julian_day{1}, S{-a[3]}};
          o.n(i.days().as_underlying_type()); o.n(i.sec().as_underlying_type()); o.d(i.as_mjd());
          o.n(j.days().as_underlying_type()); o.n(j.sec().as_underlying_type());
          o.n(i < j); o.n(i <= j); o.n(i > j); o.n(i >= j); o.n(i == j); o.n(i != j);
          auto q = i / (int)(1 + pmod(a[3], 50));
          o.n(q.days().as_underlying_type()); o.n(q.sec().as_underlying_type());
          i.normalize();
          auto x = d;
          x += i;
          o.n(x.mjd().as_underlying_type()); o.n(x.sec_as_i());
        });
        break;
      }
      case T_TYPES: {  // the fundamental types
        modified_julian_day m{me.u.mjd()};
        o.d(m.to_julian_day());
        auto y = m.to_ymd(); o.n(y.__year.as_underlying_type()); o.n(y.__month.as_underlying_type()); o.n(y.__dom.as_underlying_type());
        auto yd = m.to_ydoy(); o.n(yd.__doy.as_underlying_type());
        ++m; m += 3; --m; m -= modified_julian_day{1};
        o.n(m.as_underlying_type());
        o.n(day_of_month{(int)pmod(a[1], 40)}.is_valid(y.__year, month{(int)pmod(a[3], 15)}));
        o.n(day_of_year{(int)pmod(a[1], 400)}.is_valid(y.__year));
        o.n(is_leap((int)pmod(a[1], 3000)));
        o.s(y.__month.short_name()); o.s(y.__month.long_name());
        minutes mn{(int)pmod(a[1], 5000)};
        o.n(mn.remove_hours().as_underlying_type()); o.n(mn.as_underlying_type());
        double f = 0;
        o.n(me.m.sec().resolve_sec(f).as_underlying_type()); o.d(f);
        o.d(me.u.sec().to_fractional_seconds()); o.d(me.u.sec().fractional_days());
        microseconds us{a[1] * 1000003}; o.n(us.remove_days()); o.n(us.as_underlying_type()); o.n(microseconds{a[1] * 1000003}.to_days());
        o.n(day_of_week(seconds{pmod(a[1], 604800)}));
        o.n(me.u < datetime<microseconds>::max()); o.n(me.u > datetime<microseconds>::min());
        break;
      }
      case T_ORDER: {
        datetime<microseconds> v[NSH + 1];
        for (int i = 0; i < NSH; ++i) v[i] = shared_[i].u;
        v[NSH] = me.u;
        std::sort(v, v + NSH + 1);
        for (auto& x : v) { o.n(x.mjd().as_underlying_type()); o.n(x.sec_as_i()); }
        break;
      }
    }
  } catch (std::exception& e) {
    o.s("exception");
    o.s(e.what());
  }
}
