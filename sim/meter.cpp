// Scenario "meter": nodes that keep event counters in the library's fundamental types and stopwatches in its
// seconds types. Counting events travel over a simulated network, stopwatches run on simulated time, nodes stall,
// crash and come back from what they persisted. Decides C14 and C18.
#include <algorithm>
#include <cmath>
#include <tuple>

#include "core.hpp"
#include "model.hpp"
#include "dtcalendar.hpp"
#include "dtfund.hpp"
#include "noise.hpp"

using namespace ngpt;
typedef __int128 i128;

const char* scn_name = "meter";
const int scn_others = OTHERS | STATES;
enum Op { INIT, EVT, TICK, SETC, CMP, LAP, SETW, CKPT, SYNC, CRASH, STALL, RESUME, FLUSH, BURST };
const char* scn_ops[] = {"INIT", "EVT", "TICK", "SETC", "CMP", "LAP", "SETW", "CKPT", "SYNC", "CRASH", "STALL", "RESUME", "FLUSH", "BURST", nullptr};
// INIT node res salt            a node with seeded counters and a running stopwatch
// EVT  node type op amount salt mode     a counting event sent to the node; mode 0 normal 1 drop 2 duplicate
// TICK dt_us salt | SETC node type value | CMP node node type salt | LAP node salt | SETW node amount_us
// BURST node salt count kind   many durations read off, or many counting events, one after another (kind: ordinary or any size)
// CKPT node form | SYNC node | CRASH node lose | STALL node | RESUME node | FLUSH

typedef std::tuple<year, month, gps_week, day_of_month, day_of_year, modified_julian_day, hours, minutes, seconds, milliseconds, microseconds> Counters;
static const char* const TN[] = {"year", "month", "gps_week", "day_of_month", "day_of_year", "modified_julian_day", "hours", "minutes", "seconds", "milliseconds", "microseconds"};
enum { NT = 11, NOPS = 24 };
static const char* const ON[NOPS] = {"++x", "x++", "--x", "x--", "x+=int", "x+=long", "x+=short", "x-=int", "x-=long", "x-=char", "x+=T", "x-=T", "x=int", "x=literal or T", "x=x+T", "x=x-T", "x+=unsigned", "x-=x", "x-=unsigned", "x+=char", "x-=short", "x+=unsigned long", "x-=unsigned long", "x+=x"};
static const char* RN[3] = {"s", "ms", "us"};

template <class F, size_t... I> void with_type_i(Counters& t, int k, F f, std::index_sequence<I...>) {
  (void)((k == (int)I ? (f(std::get<I>(t)), true) : false) || ...);
}
template <class F> void with_type(Counters& t, int k, F f) { with_type_i(t, k, f, std::make_index_sequence<NT>{}); }
template <class F> void with_res(int r, F f) {
  if (r == 0) f(seconds{});
  else if (r == 1) f(milliseconds{});
  else f(microseconds{});
}
template <class T> struct is_long { static constexpr bool value = sizeof(typename T::underlying_type) == 8; };
template <class T> constexpr bool is_sec() { return std::is_same_v<T, seconds> || std::is_same_v<T, milliseconds> || std::is_same_v<T, microseconds>; }
template <class T> constexpr bool has_plus() { return is_sec<T>() || std::is_same_v<T, modified_julian_day>; }
static const i64 WMAX = 320000000000000000LL;  // a stopwatch shows at most about 10000 years, in microseconds

template <class T> T literal(unsigned long long v) {  // the user-defined literals, called with run-time values
  if constexpr (std::is_same_v<T, year>) return operator""_Y(v);
  else if constexpr (std::is_same_v<T, month>) return operator""_M(v);
  else if constexpr (std::is_same_v<T, day_of_month>) return operator""_D(v);
  else if constexpr (std::is_same_v<T, hours>) return operator""_h(v);
  else if constexpr (std::is_same_v<T, minutes>) return operator""_m(v);
  else if constexpr (std::is_same_v<T, seconds>) return operator""_sec(v);
  else if constexpr (std::is_same_v<T, milliseconds>) return operator""_millisec(v);
  else if constexpr (std::is_same_v<T, microseconds>) return operator""_microsec(v);
  else return T{(typename T::underlying_type)v};
}

struct Watch {  // a stopwatch reading, as persisted
  int form = -1;
  i64 v[5] = {0};
  double d = 0;
};
struct Node {
  Counters cnt;
  i64 model[NT] = {0};
  int res = 0;
  i64 w = 0;          // the stopwatch, stored by the application in units of its resolution through library objects
  seconds ws{}; milliseconds wm{}; microseconds wu{};
  bool stalled = false;
  i64 missed = 0;
  std::map<u64, int> seen;  // events already applied
  bool dsk = false, cch = false;
  i64 cmod[NT] = {0}, dmod[NT] = {0}, cw = 0, dw = 0;
  Watch cwatch, dwatch;
};
struct Msg { i64 due; u64 tie, seq; int node, type, op; i64 amt; };

struct Meter {
  Ctx& c;
  std::vector<Node> nodes;
  bool burst = false;
  std::vector<Msg> net;
  i64 T = 0;
  u64 tie = 0, seq = 0;
  explicit Meter(Ctx& c_) : c(c_) {}

  // ---- C14: one counting event ----
  template <class T> void apply(T& x, i64& m, int k, int op, i64 amt) {
    typedef typename T::underlying_type U;
    const i64 old = m, LO = std::numeric_limits<U>::min(), HI = std::numeric_limits<U>::max();
    i128 want = old;
    auto to = [&](i128 v) { want = v; return v >= LO && v <= HI; };  // would the count stay within the counter?
    // the operand, brought into [lo, hi]: unchanged if it lies there
    auto into = [&](i64 lo, i64 hi) { return amt >= lo && amt <= hi ? amt : hi == INT64_MAX ? (amt < lo ? -(amt + 1) : amt) : lo + fmod_(amt, hi - lo + 1); };
    auto whole = [&] { return is_long<T>::value ? amt : into(LO, HI); };
    const i64 UHI = is_long<T>::value ? 0xffffffffLL : HI;  // unsigned operands, as far as they are values of the counter
    i64 a = amt;
    bool post = false;
    i64 ret = 0;
    const void *self = &x, *res = &x;
    switch (op) {
      case 0: if (!to((i128)old + 1)) return; res = &++x; break;
      case 1: if (!to((i128)old + 1)) return; ret = (i64)(x++).as_underlying_type(); post = true; break;
      case 2: if (!to((i128)old - 1)) return; res = &--x; break;
      case 3: if (!to((i128)old - 1)) return; ret = (i64)(x--).as_underlying_type(); post = true; break;
      case 4: a = into(INT32_MIN, INT32_MAX); if (!to((i128)old + a)) return; res = &(x += (int)a); break;
      case 5: a = whole(); if (!to((i128)old + a)) return; res = &(x += (long)a); break;
      case 6: a = into(-32768, 32767); if (!to((i128)old + a)) return; res = &(x += (short)a); break;
      case 7: a = into(INT32_MIN, INT32_MAX); if (!to((i128)old - a)) return; res = &(x -= (int)a); break;
      case 8: a = whole(); if (!to((i128)old - a)) return; res = &(x -= (long)a); break;
      case 9: a = into(-128, 127); if (!to((i128)old - a)) return; res = &(x -= (signed char)a); break;
      case 10: case 11: {
        a = whole();
        if (!to(op == 10 ? (i128)old + a : (i128)old - a)) return;
        T y{(U)a};
        if (op == 10) res = &(x += y); else res = &(x -= y);
        c.check((i64)y.as_underlying_type() == a, "operand_changed", std::string(ON[op]) + " on " + TN[k] + " changed its right operand from " + std::to_string(a) + " to " + std::to_string((i64)y.as_underlying_type()));
        break;
      }
      case 12: a = whole(); if (!to(a)) return; if constexpr (std::is_assignable_v<T&, U>) res = &(x = (U)a); else x = T{(U)a}; break;
      case 13: a = whole(); if (!to(a)) return; if (a >= 0 && (a & 1)) x = literal<T>((unsigned long long)a); else x = T{(U)a}; break;
      case 14: case 15:
        if constexpr (has_plus<T>()) {
          if (!to(op == 14 ? (i128)old + a : (i128)old - a)) return;
          const T y{(U)a}, z{x};
          if (op == 14) x = z + y; else x = z - y;
          c.check((i64)z.as_underlying_type() == old && (i64)y.as_underlying_type() == a, "operand_changed", std::string(ON[op]) + " on " + TN[k] + " changed an operand");
          break;
        } else return;
      case 16: a = into(0, UHI); if (!to((i128)old + a)) return; res = &(x += (unsigned)a); break;
      case 17: want = 0; res = &(x -= x); break;
      case 18: a = into(0, UHI); if (!to((i128)old - a)) return; res = &(x -= (unsigned)a); break;
      case 19: a = into(-128, 127); if (!to((i128)old + a)) return; res = &(x += (signed char)a); break;
      case 20: a = into(-32768, 32767); if (!to((i128)old - a)) return; res = &(x -= (short)a); break;
      case 21: a = into(0, HI); if (!to((i128)old + a)) return; res = &(x += (unsigned long)a); break;
      case 22: a = into(0, HI); if (!to((i128)old - a)) return; res = &(x -= (unsigned long)a); break;
      default: a = old; if (!to((i128)old + old)) return; res = &(x += x); break;
    }
    m = (i64)want;
    if (!burst) cnt(std::string("op.") + ON[op]);
    i64 act = (i64)x.as_underlying_type();
    c.obs((u64)act);
    if (c.is("C14")) {
      auto desc = [&] { return std::string(ON[op]) + " on " + TN[k] + "{" + std::to_string(old) + "} with " + std::to_string(a) + " gives " + std::to_string(act) + ", expected " + std::to_string(m); };
      c.check(act == m, "count", desc());
      if (post) c.check(ret == old, "post_value", desc() + "; the expression returned " + std::to_string(ret));
      else c.check(res == self, "not_self", desc() + "; the expression does not denote the counter itself");
      if (burst) return;
      u64 aa = a < 0 ? 0 - (u64)a : (u64)a;
      int lg = 0;
      while (aa > 1) aa >>= 1, ++lg;
      c.sig(mix((u64)k * 64 + (u64)op, (u64)(lg * 4 + (a < 0) * 2 + (old < 0))));
    }
  }
  template <class T> void compare(const T& x, const T& y, i64 a, i64 b, int k) {
    auto what = [&](const char* o) { return std::string(TN[k]) + "{" + std::to_string(a) + "} " + o + " " + TN[k] + "{" + std::to_string(b) + "}"; };
    c.check((x == y) == (a == b), "compare", what("=="));
    c.check((x != y) == (a != b), "compare", what("!="));
    c.check((x < y) == (a < b), "compare", what("<"));
    c.check((x <= y) == (a <= b), "compare", what("<="));
    c.check((x > y) == (a > b), "compare", what(">"));
    c.check((x >= y) == (a >= b), "compare", what(">="));
    if (!burst) c.sig(mix(99, (u64)k * 16 + (a < b) + 2 * (a > b) + 4 * (a < 0) + 8 * (b < 0)));
  }
  void audit() {
    if (!c.is("C14")) return;
    for (auto& n : nodes)
      for (int k = 0; k < NT; ++k)
        with_type(n.cnt, k, [&](auto& x) { c.check((i64)x.as_underlying_type() == n.model[k], "spooky", std::string("a ") + TN[k] + " counter changed although nothing counted: " + std::to_string((i64)x.as_underlying_type()) + ", expected " + std::to_string(n.model[k])); });
  }

  // ---- C18: the stopwatch ----
  template <class S> S& watch(Node& n) {
    if constexpr (std::is_same_v<S, seconds>) return n.ws;
    else if constexpr (std::is_same_v<S, milliseconds>) return n.wm;
    else return n.wu;
  }
  void run(Node& n, i64 dt, Rng& r) {  // advance by dt microseconds of simulated time
    i64 a = dt / (1000000 / FAC[n.res]);
    i64 lim_ = WMAX / (1000000 / FAC[n.res]);
    if (n.w + a > lim_ || n.w + a < -lim_) return;
    n.w += a;
    with_res(n.res, [&](auto z) {
      typedef decltype(z) S;
      S& w = watch<S>(n);
      switch (r.below(4)) {
        case 0: w += S{a}; break;
        case 1: w -= S{-a}; break;
        case 2: w = w + S{a}; break;
        default: w = w - S{-a};
      }
      if (c.is("C18")) c.check((i64)w.as_underlying_type() == n.w, "elapsed", "stopwatch shows " + std::to_string((i64)w.as_underlying_type()) + " " + RN[n.res] + ", expected " + std::to_string(n.w));
    });
    c.obs((u64)n.w);
  }
  static bool near(double a, long double b) { long double e = (long double)a - b, t = std::fabs((double)b) * 1e-14; return e <= t && e >= -t; }
  template <class S, class D> void casts(S w, i64 m, int R) {
    constexpr int Q = D::max_in_day == 86400L ? 0 : D::max_in_day == 86400000L ? 1 : 2;
    i64 want;
    if (Q >= R) {
      i64 f = FAC[Q] / FAC[R];
      if (m > INT64_MAX / f || m < -(INT64_MAX / f)) return;
      want = m * f;
    } else want = m / (FAC[R] / FAC[Q]);
    S copy = w;
    D d = ngpt::cast_to<S, D>(w);
    auto what = [&](const char* f) { return std::string(f) + " of " + std::to_string(m) + " " + RN[R] + " to " + RN[Q] + " gives "; };
    c.check((i64)d.as_underlying_type() == want, "cast", what("cast_to") + std::to_string((i64)d.as_underlying_type()) + ", expected " + std::to_string(want));
    c.check((i64)copy.as_underlying_type() == m && (i64)w.as_underlying_type() == m, "cast_changed_source", what("cast_to") + "a changed source");
    if constexpr (std::is_constructible_v<D, S>) {
      D e = static_cast<D>(w);
      c.check((i64)e.as_underlying_type() == want, "convert", what("conversion") + std::to_string((i64)e.as_underlying_type()) + ", expected " + std::to_string(want));
    }
    if (Q >= R) { S b = ngpt::cast_to<D, S>(d); c.check((i64)b.as_underlying_type() == m, "cast_back", what("cast_to and back") + std::to_string((i64)b.as_underlying_type())); }
  }
  template <class S> void lap(Node& n, Rng& r) {
    const int R = n.res;
    const i64 U = S::max_in_day, F = FAC[R], m = n.w;
    const S w = watch<S>(n);
    LAZY(at, std::to_string(m) + " " + RN[R]);
    // hours, minutes, seconds and fraction
    auto h = w.to_hmsf();
    i64 hh = std::get<0>(h).as_underlying_type(), mn = std::get<1>(h).as_underlying_type(), ss = std::get<2>(h).as_underlying_type(), fr = std::get<3>(h);
    LAZY(hs, std::to_string(hh) + ":" + std::to_string(mn) + ":" + std::to_string(ss) + " + " + std::to_string(fr));
    c.check((hh * 3600 + mn * 60 + ss) * F + fr == m, "hmsf", "to_hmsf of " + at + " gives " + hs);
    if (m >= 0) c.check(hh >= 0 && mn >= 0 && mn < 60 && ss >= 0 && ss < 60 && fr >= 0 && fr < F, "hmsf_range", "to_hmsf of " + at + " gives " + hs);
    {  // put back together
      S b{hours{(int)hh}, minutes{(int)mn}, S{ss * F + fr}};
      c.check((i64)b.as_underlying_type() == m, "reassemble", hs + " reassembled gives " + std::to_string((i64)b.as_underlying_type()) + ", was " + at);
      double fs = (double)ss + (double)fr / (double)F;
      S d{hours{(int)hh}, minutes{(int)mn}, fs};
      c.check((i64)d.as_underlying_type() == m, "reassemble_fractional", hs + " reassembled from fractional seconds gives " + std::to_string((i64)d.as_underlying_type()) + ", was " + at);
      hours hr{(int)hh};
      int dd = hr.remove_days();
      i64 hrest = hr.as_underlying_type();
      c.check((i64)dd * 24 + hrest == hh && hrest < 24 && hrest > -24, "hours_days", std::to_string(hh) + " hours split into " + std::to_string(dd) + " days and " + std::to_string(hrest) + " hours");
      i64 tm = hh * 60 + mn;
      if (tm < 2147483647LL && tm > -2147483647LL) {
        minutes q{(int)tm};
        hours qh = q.remove_hours();
        i64 qm = q.as_underlying_type();
        c.check((i64)qh.as_underlying_type() * 60 + qm == tm && qm < 60 && qm > -60, "minutes_hours", std::to_string(tm) + " minutes split into " + std::to_string(qh.as_underlying_type()) + " hours and " + std::to_string(qm) + " minutes");
      }
    }
    // days and rest
    S rest = w;
    i64 days = rest.remove_days();
    i64 rv = rest.as_underlying_type();
    c.check(days * U + rv == m && rv < U && rv > -U, "days_rest", "remove_days of " + at + " gives " + std::to_string(days) + " days and " + std::to_string(rv));
    if (m >= 0) {
      c.check(rv >= 0, "days_rest", "remove_days of " + at + " leaves " + std::to_string(rv));
      c.check(w.to_days() == m / U, "to_days", "to_days of " + at + " gives " + std::to_string(w.to_days()));
      if (m != U) c.check(w.more_than_day() == (m > U), "more_than_day", "more_than_day of " + at + " is " + (w.more_than_day() ? "true" : "false"));
    }
    // as numbers
    double fd = w.fractional_days(), fsec = w.to_fractional_seconds();
    c.check(near(fd, (long double)m / U), "fractional_days", "fractional_days of " + at + " gives " + std::to_string(fd));
    c.check(near(fsec, (long double)m / F), "fractional_seconds", "to_fractional_seconds of " + at + " gives " + std::to_string(fsec));
    if constexpr (std::is_same_v<S, milliseconds>) {
      double f = -7;
      seconds s = w.resolve_sec(f);
      c.check((i64)s.as_underlying_type() == m / 1000 && std::fabs(f - (double)(m % 1000) / 1000.0) < 1e-9, "resolve_sec", "resolve_sec of " + at + " gives " + std::to_string((i64)s.as_underlying_type()) + " and " + std::to_string(f));
    }
    casts<S, seconds>(w, m, R);
    casts<S, milliseconds>(w, m, R);
    casts<S, microseconds>(w, m, R);
    // whole days of a duration as the difference of two days
    i64 d0 = r.range(-700000, 3000000), dn = m / U % 3650000;
    S df = mjd_sec_diff<S>(modified_julian_day{d0 + dn}, modified_julian_day{d0});
    c.check((i64)df.as_underlying_type() == dn * U, "day_difference", "difference of days " + std::to_string(d0 + dn) + " and " + std::to_string(d0) + " is " + std::to_string((i64)df.as_underlying_type()) + " " + RN[R]);
    c.check(max_days_allowed<S>() == INT64_MAX / U, "max_days", std::string("max_days_allowed in ") + RN[R] + " is " + std::to_string((i64)max_days_allowed<S>()));
    c.check((i64)w.as_underlying_type() == m, "lap_changed_watch", "reading a stopwatch at " + at + " changed it to " + std::to_string((i64)w.as_underlying_type()));
    c.obs((u64)days);
    c.obs((u64)fr);
    if (burst) return;
    i64 aa = m < 0 ? -m : m;
    int lg = 0;
    while (aa > 1) aa >>= 1, ++lg;
    c.sig(mix((u64)R * 4 + (m < 0), (u64)lg * 64 + (u64)(rv == 0) + 2 * (rv == U - 1) + 4 * (fr == 0) + 8 * (ss == 0) + 16 * (mn == 0)));
    CNT("laps");
  }
  template <class S> Watch save(Node& n, int form) {
    const S w = watch<S>(n);
    Watch p;
    p.form = form;
    auto h = w.to_hmsf();
    switch (form) {
      case 0: p.v[0] = w.as_underlying_type(); break;
      case 1: { S q = w; p.v[0] = q.remove_days(); p.v[1] = q.as_underlying_type(); break; }
      case 2: p.v[0] = std::get<0>(h).as_underlying_type(); p.v[1] = std::get<1>(h).as_underlying_type(); p.v[2] = std::get<2>(h).as_underlying_type(); p.v[3] = std::get<3>(h); break;
      case 3: p.v[0] = std::get<0>(h).as_underlying_type(); p.v[1] = std::get<1>(h).as_underlying_type(); p.d = (double)std::get<2>(h).as_underlying_type() + (double)std::get<3>(h) / (double)FAC[n.res]; break;
      default: p.form = 4; { microseconds u = ngpt::cast_to<S, microseconds>(w); p.v[0] = u.as_underlying_type(); }
    }
    return p;
  }
  template <class S> S load(const Watch& p, int res) {
    switch (p.form) {
      case 0: return S{(long)p.v[0]};
      case 1: { S q{(long)p.v[1]}; q += S{(long)(p.v[0] * S::max_in_day)}; return q; }
      case 2: return S{hours{(int)p.v[0]}, minutes{(int)p.v[1]}, S{(long)(p.v[2] * FAC[res] + p.v[3])}};
      case 3: return S{hours{(int)p.v[0]}, minutes{(int)p.v[1]}, p.d};
      default: return ngpt::cast_to<microseconds, S>(microseconds{(long)p.v[0]});
    }
  }

  void fire(const Msg& m) {
    Node& n = nodes[(size_t)m.node];
    if (n.stalled) { net.push_back(m); net.back().due = T + 1000000; CNT("fault.msg_held_by_stalled_node"); return; }
    if (n.seen[m.seq]++) { CNT("dedup"); return; }
    with_type(n.cnt, m.type, [&](auto& x) { apply(x, n.model[m.type], m.type, m.op, m.amt); });
  }
  void deliver(i64 upto) {
    u64 last = 0;
    for (int guard = 0; guard < 400; ++guard) {
      size_t b = net.size();
      for (size_t i = 0; i < net.size(); ++i)
        if (net[i].due <= upto && (b == net.size() || net[i].due < net[b].due || (net[i].due == net[b].due && net[i].tie < net[b].tie))) b = i;
      if (b == net.size()) break;
      Msg m = net[b];
      net.erase(net.begin() + (long)b);
      if (m.seq < last) { CNT("fault.msg_reordered"); ++c.faults; }
      last = m.seq;
      fire(m);
    }
  }

  void step(const Step& s) {
    Node* n = s.op == INIT || s.op == TICK || s.op == FLUSH || nodes.empty() ? nullptr : &nodes[(size_t)fmod_(s.a[0], (i64)nodes.size())];
    if (!n && s.op != INIT && s.op != TICK && s.op != FLUSH) return;
    switch (s.op) {
      case INIT: {
        if (nodes.size() >= 6) return;
        nodes.emplace_back();
        Node& x = nodes.back();
        x.res = (int)fmod_(s.a[1], 3);
        Rng r((u64)s.a[2]);
        for (int k = 0; k < NT; ++k) {
          i64 v = r.chance(1, 3) ? r.range(-3, 3) : r.chance(1, 2) ? r.logmag(28) : -r.logmag(28);
          x.model[k] = v;
          with_type(x.cnt, k, [&](auto& q) { typedef std::decay_t<decltype(q)> Q; q = Q{(typename Q::underlying_type)v}; });
        }
        break;
      }
      case EVT: {
        Rng r((u64)s.a[4]);
        int mode = (int)fmod_(s.a[5], 3);
        Msg m{T + (r.chance(1, 2) ? 0 : r.logmag(33)), tie++, ++seq, (int)(n - &nodes[0]), (int)fmod_(s.a[1], NT), (int)fmod_(s.a[2], NOPS), s.a[3]};
        if (mode == 1) { CNT("fault.msg_dropped"); ++c.faults; m.due += 5000000; m.tie = tie++; }  // retransmitted
        net.push_back(m);
        if (mode == 2) { CNT("fault.msg_duplicated"); ++c.faults; m.due += r.logmag(30); m.tie = tie++; net.push_back(m); }
        deliver(T);
        break;
      }
      case TICK: {
        i64 dt = s.a[0] < 0 ? 0 : s.a[0];
        T += dt;
        c.simtime += (double)dt * 1e-6;
        Rng r((u64)s.a[1]);
        for (auto& x : nodes) {
          if (x.stalled) { x.missed += dt; continue; }
          run(x, dt, r);
        }
        deliver(T);
        break;
      }
      case SETC: {
        int k = (int)fmod_(s.a[1], NT);
        CNT("fault.counter_stepped");
        ++c.faults;
        with_type(n->cnt, k, [&](auto& x) { apply(x, n->model[k], k, 12 + (int)(s.a[2] & 1), s.a[2]); });
        break;
      }
      case CMP: {
        if (!c.is("C14")) break;
        Node& o = nodes[(size_t)fmod_(s.a[1], (i64)nodes.size())];
        int k = (int)fmod_(s.a[2], NT);
        with_type(n->cnt, k, [&](auto& x) {
          typedef std::decay_t<decltype(x)> X;
          const X& y = std::get<X>(o.cnt);
          compare(x, y, n->model[k], o.model[k], k);
          compare(y, x, o.model[k], n->model[k], k);
          compare(x, x, n->model[k], n->model[k], k);
          for (i64 d : {(i64)1, (i64)-1}) {
            typedef std::numeric_limits<typename X::underlying_type> UL;
            if (n->model[k] == (d > 0 ? (i64)UL::max() : (i64)UL::min())) continue;
            i64 v = n->model[k] + d;
            X z{(typename X::underlying_type)v};
            compare(x, z, n->model[k], v, k);
          }
          // sentinels and values far apart, which the counters themselves never reach
          typedef typename X::underlying_type U;
          Rng r((u64)s.a[3]);
          auto edge = [&]() -> i64 {
            const i64 lo = std::numeric_limits<U>::min(), hi = std::numeric_limits<U>::max();
            switch (r.below(6)) {
              case 0: return lo + (i64)r.below(3);
              case 1: return hi - (i64)r.below(3);
              case 2: return n->model[k];
              case 3: return r.range(-2, 2);
              default: { int b = (int)r.range(0, sizeof(U) * 8 - 2); i64 v = (1LL << b) + r.range(-1, 0); return r.chance(1, 2) ? v : -v; }
            }
          };
          for (int q = 0; q < 4; ++q) {
            i64 a = edge(), b = r.chance(1, 4) ? a : edge();
            compare(X{(U)a}, X{(U)b}, a, b, k);
          }
          if constexpr (std::is_same_v<X, modified_julian_day>) {
            compare(X::min(), x, INT64_MIN, n->model[k], k);
            compare(x, X::max(), n->model[k], INT64_MAX, k);
          }
        });
        break;
      }
      case LAP: if (c.is("C18")) { Rng r((u64)s.a[1]); with_res(n->res, [&](auto z) { lap<decltype(z)>(*n, r); }); } break;
      case SETW: {
        Rng r((u64)s.a[1]);
        i64 v = s.a[1] > WMAX ? WMAX : s.a[1] < -WMAX ? -WMAX : s.a[1];
        CNT("fault.stopwatch_stepped");
        ++c.faults;
        i64 q = v / (1000000 / FAC[n->res]);
        n->w = q;
        with_res(n->res, [&](auto z) { typedef decltype(z) S; S& w = watch<S>(*n); if (q & 1) w = S{(long)q}; else w = (long)q; if (c.is("C18")) c.check((i64)w.as_underlying_type() == q, "elapsed", "stopwatch set to " + std::to_string(q) + " shows " + std::to_string((i64)w.as_underlying_type())); });
        break;
      }
      case CKPT:
        with_res(n->res, [&](auto z) { n->cwatch = save<decltype(z)>(*n, (int)fmod_(s.a[1], 5)); });
        n->cw = n->w;
        for (int k = 0; k < NT; ++k) with_type(n->cnt, k, [&](auto& x) { n->cmod[k] = (i64)x.as_underlying_type(); });
        n->cch = true;
        CNT("ckpt.written");
        break;
      case SYNC: if (n->cch) { n->dsk = true; n->dw = n->cw; n->dwatch = n->cwatch; for (int k = 0; k < NT; ++k) n->dmod[k] = n->cmod[k]; CNT("ckpt.synced"); } break;
      case CRASH: {
        CNT("fault.crash");
        ++c.faults;
        if ((s.a[1] & 1) && n->cch) { CNT("fault.unsynced_write_lost"); n->cch = n->dsk; n->cw = n->dw; n->cwatch = n->dwatch; for (int k = 0; k < NT; ++k) n->cmod[k] = n->dmod[k]; }
        n->stalled = false;
        n->missed = 0;
        if (!n->cch) break;
        n->w = n->cw;
        with_res(n->res, [&](auto z) {
          typedef decltype(z) S;
          S back = load<S>(n->cwatch, n->res);
          if (c.is("C18")) c.check((i64)back.as_underlying_type() == n->w, "restore", "stopwatch restored from form " + std::to_string(n->cwatch.form) + " (" + std::to_string(n->cwatch.v[0]) + " " + std::to_string(n->cwatch.v[1]) + " " + std::to_string(n->cwatch.v[2]) + " " + std::to_string(n->cwatch.v[3]) + " " + std::to_string(n->cwatch.d) + ") shows " + std::to_string((i64)back.as_underlying_type()) + " " + RN[n->res] + ", was " + std::to_string(n->w));
          watch<S>(*n) = back;
        });
        for (int k = 0; k < NT; ++k) {
          n->model[k] = n->cmod[k];
          with_type(n->cnt, k, [&](auto& x) { typedef std::decay_t<decltype(x)> X; x = X{(typename X::underlying_type)n->cmod[k]}; });
        }
        CNT("restored");
        break;
      }
      case STALL: if (!n->stalled) { n->stalled = true; CNT("fault.node_stalled"); ++c.faults; } break;
      case RESUME: if (n->stalled) { n->stalled = false; Rng r((u64)s.a[1]); i64 m = n->missed; n->missed = 0; run(*n, m, r); } break;
      case BURST: {
        Rng r((u64)s.a[1]);
        burst = true;
        struct Off { bool& b; ~Off() { b = false; } } off{burst};
        const i64 count = fmod_(s.a[2], 4097);
        if (c.is("C18")) {
          const i64 U = 1000000 / FAC[n->res];
          with_res(n->res, [&](auto z) {
            typedef decltype(z) S;
            const i64 top = WMAX / U;
            for (i64 i = 0; i < count; ++i) {
              i64 q = s.a[3] & 1 ? r.range(0, 3000) * S::max_in_day + r.range(0, S::max_in_day - 1) : (i64)(r.next() % (u64)top);
              if (q > top) q %= top;
              if (r.chance(1, 8)) q = -q;
              n->w = q;
              watch<S>(*n) = S{(long)q};
              lap<S>(*n, r);
            }
          });
          cnt("fault.stopwatch_stepped", (u64)count);
          cnt("laps", (u64)count);
          c.faults += (u64)count;
        } else {
          for (i64 i = 0; i < count; ++i) {
            const int k = (int)r.below(NT);
            const bool step_ = r.chance(1, 4);
            const int op = step_ ? 12 + (int)r.below(2) : (int)r.below(NOPS);
            const i64 a = s.a[3] & 1 ? r.range(-100000, 100000) : (i64)(r.next() >> r.range(2, 33)) * (r.chance(1, 2) ? 1 : -1);
            with_type(n->cnt, k, [&](auto& x) {
              typedef std::decay_t<decltype(x)> X;
              apply(x, n->model[k], k, op, a);
              if (c.is("C14") && r.chance(1, 8)) { const i64 v = n->model[k] / 2 + r.range(0, 1); compare(x, X{(typename X::underlying_type)v}, n->model[k], v, k); }
            });
          }
          cnt("events_in_bursts", (u64)count);
        }
        break;
      }
      case FLUSH:
        for (auto& x : nodes) x.stalled = false;
        for (auto& x : net) if (x.due > T) T = x.due;
        deliver(T);
        break;
    }
    audit();
  }
};

void scn_init() {}
void scn_exec(Ctx& c) {
  Meter w(c);
  for (auto& s : c.plan.steps) { dirty_stack(); if (!other(c, s)) w.step(s); }
}

Plan scn_gen(const std::string& prop, u64 seed) {
  Plan p;
  p.prop = prop;
  p.seed = seed;
  Rng r(seed);
  auto add = [&](int op, std::initializer_list<i64> a) {
    Step s;
    s.op = op;
    int i = 0;
    for (i64 v : a) s.a[i++] = v;
    p.steps.push_back(s);
  };
  int nn = (int)r.range(1, 3), ns = (int)r.range(6, 50);
  for (int i = 0; i < nn; ++i) add(INIT, {i, (i64)r.below(3), (i64)(r.next() >> 1)});
  static const int widths[] = {7, 8, 15, 16, 31, 32, 31, 32};
  auto amount = [&]() -> i64 {
    i64 v;
    switch (r.below(8)) {
      case 0: v = r.range(0, 3); break;
      case 6: v = (1LL << r.pick(widths)) + r.range(-1, 1); break;
      case 7: v = r.chance(1, 3) ? INT64_MAX - r.logmag(62) : (1LL << r.range(60, 62)) + r.range(-2, 2); break;
      case 1: { static const i64 e[] = {24, 60, 100, 255, 256, 365, 366, 400, 1000, 3600, 32767, 32768, 65535, 65536, 86400, 86400000, 1073741823}; v = r.pick(e) + r.range(-1, 1); break; }
      case 2: v = r.logmag(20); break;
      case 3: v = r.logmag(31); break;
      case 4: v = (1LL << r.range(0, 60)) + r.range(-1, 1); break;
      default: v = r.logmag(60);
    }
    return r.chance(1, 2) ? v : -v;
  };
  auto span = [&]() -> i64 {  // microseconds
    static const i64 unit[] = {1, 1000, 1000000, 60000000, 3600000000LL, 86400000000LL, 604800000000LL};
    i64 v;
    switch (r.below(5)) {
      case 0: v = r.pick(unit) * r.range(0, 70) + r.range(-2, 2); break;
      case 1: v = 86400000000LL * r.range(0, 3650000) + r.range(-3, 3) * r.pick(unit); break;
      case 2: v = r.logmag(58); break;
      case 3: v = r.range(0, 23) * 3600000000LL + r.range(0, 59) * 60000000LL + r.range(0, 59) * 1000000 + r.range(0, 999999); break;
      default: v = r.logmag(40);
    }
    return v;
  };
  unsigned mask = (unsigned)r.next();
  auto type = [&] { for (int i = 0; i < 4; ++i) { int k = (int)r.below(NT); if ((mask >> k) & 1) return (i64)k; } return (i64)r.below(NT); };
  for (int i = 0; i < ns; ++i) {
    i64 n = (i64)r.below((u64)nn);
    int w = (int)r.below(100);
    if (prop == "C14") {
      if (w < 55) add(EVT, {n, type(), (i64)r.below(NOPS), amount(), (i64)(r.next() >> 1), r.chance(2, 3) ? 0 : r.range(1, 2)});
      else if (w < 62) add(SETC, {n, type(), amount()});
      else if (w < 80) add(CMP, {n, (i64)r.below((u64)nn), type(), (i64)(r.next() >> 1)});
      else if (w < 86) add(TICK, {r.logmag(34), (i64)(r.next() >> 1)});
      else if (w < 90) { add(CKPT, {n, (i64)r.below(5)}); if (r.chance(2, 3)) add(SYNC, {n}); }
      else if (w < 94) add(CRASH, {n, (i64)r.below(2)});
      else if (w < 96) add(STALL, {n});
      else if (w < 98) add(RESUME, {n, (i64)(r.next() >> 1)});
      else add(FLUSH, {});
    } else {
      if (w < 20) add(TICK, {span(), (i64)(r.next() >> 1)});
      else if (w < 40) { i64 v = span(); add(SETW, {n, r.chance(3, 4) ? v : -v}); }
      else if (w < 75) add(LAP, {n, (i64)(r.next() >> 1)});
      else if (w < 84) { add(CKPT, {n, (i64)r.below(5)}); if (r.chance(2, 3)) add(SYNC, {n}); }
      else if (w < 94) { add(CRASH, {n, (i64)r.below(2)}); add(LAP, {n, (i64)(r.next() >> 1)}); }
      else if (w < 97) add(STALL, {n});
      else add(RESUME, {n, (i64)(r.next() >> 1)});
    }
  }
  if (r.chance(1, 2)) {
    i64 n = (i64)r.below((u64)nn), count = r.range(10, prop == "C14" ? 4000 : 1000);
    const size_t at = (size_t)nn + r.below(p.steps.size() - (size_t)nn + 1);
    add(BURST, {n, (i64)(r.next() >> 1), count, (i64)r.below(2)});
    std::rotate(p.steps.begin() + (long)at, p.steps.end() - 1, p.steps.end());
  }
  add(FLUSH, {});
  return p;
}
