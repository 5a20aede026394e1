// Scenario "fields": an application that keeps calendar fields and month names in a store whose medium flips bits,
// loses and duplicates writes, tears records, mixes fields of different records and zero-fills; whatever comes back
// is put through the library's validity checks and month-name lookup before use. Decides C16 and C17.
#include <exception>

#include "core.hpp"
#include "model.hpp"
#include "dtcalendar.hpp"
#include "dtfund.hpp"
#include "noise.hpp"

using namespace ngpt;

const char* scn_name = "fields";
const int scn_others = OTHERS | STATES;
enum Op { PUT, NAME, FLIP, DRIFT, ZERO, SPLICE, TORN, LOSTW, NFLIP, NCUT, NINS, NDEL, NDUP, NSPLICE, NCASE, NZERO, READ, NRUN, NNOISE, NWORD };
const char* scn_ops[] = {"PUT", "NAME", "FLIP", "DRIFT", "ZERO", "SPLICE", "TORN", "LOSTW", "NFLIP", "NCUT", "NINS", "NDEL", "NDUP", "NSPLICE", "NCASE", "NZERO", "READ", "NRUN", "NNOISE", "NWORD", nullptr};
// PUT slot year month day doy week       store a date | NAME slot month form casemask : store a month's name
// FLIP slot field bit | DRIFT slot field delta | ZERO slot field | SPLICE slot other field | TORN slot field bytes
// LOSTW slot                             the last write of the slot never reached the medium
// NFLIP slot pos bit | NCUT slot pos | NINS slot pos byte | NDEL slot pos n | NDUP slot pos n | NSPLICE slot other pos | NCASE slot mask | NZERO slot pos | NRUN slot pos n byte (a long run of one byte)
// NNOISE slot pos k (bytes of another encoding or program) | NWORD slot k (another word in the name's place)
// READ slot salt

static const char* const NOISE[] = {"\xef\xbb\xbf", "\xc2\xa0", "\r\n", "\r", "\xc5\xbf", "\xc4\xb1", "\xc4\xb0", "\xe2\x84\xaa", "\xe2\x80\x8b", "\x1b[1m", "%s%n", "\xcc\x81", "\xff\xfe", "\"", "'", ".", ",", "-", "_", "'s", "uary", "ember", "ary", "est", "\x7f"};
enum { NNOISES = sizeof NOISE / sizeof *NOISE };
// what else might stand in a month's place: other languages, usual abbreviations, numbers, words of the calendar
static const char* const WORDS[] = {"Sept", "Sept.", "Febr", "Janv", "Juni", "Juli", "Okt", "Dez", "Mai", "Mar.", "M\xc3\xa4r", "Mrz", "Ago", "Ene", "Abr", "Dic", "Fev", "Avr", "Aout", "Ao\xc3\xbbt", "Ott", "Gen", "Giu", "Lug", "Set", "Oca", "Eki", "Oktober", "Dezember", "Januar", "Februar", "Maerz", "August ", " August", "June ", "Jul y", "1", "2", "12", "01", "02", "012", "12.", "001", "010", "I", "II", "III", "IV", "VII", "VIII", "XII", "Mon", "Tue", "Sunday", "day", "month", "undecimber", "Undecember", "Und", "Unk", "Unknown", "Nil", "nan", "inf", "", " ", "xxx", "???", "***", "***********", "Jan|Feb", "JanFeb", "Jan-Feb", "Janjan", "MayMay", "Sep\n", "May\r\n", "may ", " may", "Ma", "J", "Ju", "ja", "no", "JA N", "J-A-N", "j.n", "J?N", "[J]an", "jan*", "jan%", "Jan_", "Jänner", "0x1", "1e0", "0000000000000001"};
enum { NWORDS = sizeof WORDS / sizeof *WORDS };

struct Slot {
  int f[5] = {2000, 1, 1, 1, 0};  // year, month, day of month, day of year, gps week
  int old[5] = {2000, 1, 1, 1, 0};
  std::string name = "Jan", oldname = "Jan";
};
static char lower(char ch) { return ch >= 'A' && ch <= 'Z' ? (char)(ch + 32) : ch; }
static std::string lowered(const std::string& s) { std::string o; for (char ch : s) o += lower(ch); return o; }
static int ref_month(const char* z) {
  std::string s = lowered(z);
  for (int i = 0; i < 12; ++i) { std::string l = lowered(M_LONG[i]); if (s == l || s == l.substr(0, 3)) return i + 1; }
  return 0;
}

struct Store {
  Ctx& c;
  Slot slot[3];
  explicit Store(Ctx& c_) : c(c_) {}

  int lookup(const char* z, bool& std_exc) {  // 0: rejected
    std_exc = true;
    try {
      month m(z);
      return m.as_underlying_type();
    } catch (std::exception&) {
      return 0;
    } catch (...) {
      std_exc = false;
      return 0;
    }
  }
  void names(const Slot& s) {
    bool ok;
    const char* z = s.name.c_str();
    int want = ref_month(z), got = lookup(z, ok);
    c.obs((u64)got);
    LAZY(show, strlen(z) < 300 ? shown(z) : shown(std::string(z, 100)) + "... (" + std::to_string(strlen(z)) + " characters)");
    c.check(got == want && ok, "name", "month name " + show + (got ? " resolves to " + std::to_string(got) : ok ? " is rejected" : " throws something that is not a std::exception") + ", expected " + (want ? std::to_string(want) : std::string("a rejection")));
    if (got) CNT("name.resolved"); else CNT("name.rejected");
    if (got >= 1 && got <= 12) back(got);
    c.sig(mix(3, mix(hstr(lowered(z).c_str()), strlen(z))));
  }
  void back(int n) {
    month m{n};
    std::string l = m.long_name(), sh = m.short_name();
    c.check(l == M_LONG[n - 1] && sh == l.substr(0, 3), "number", "month " + std::to_string(n) + " is called " + shown(sh) + " and " + shown(l));
    bool ok;
    int a = lookup(m.long_name(), ok), b = lookup(m.short_name(), ok);
    c.check(a == n && b == n, "round_trip", "month " + std::to_string(n) + " is called " + shown(sh) + " and " + shown(l) + " which resolve to " + std::to_string(b) + " and " + std::to_string(a));
  }
  template <class F> int guarded(F f) {  // 1: built, 0: rejected with a catchable exception, -1: other exception
    try { f(); return 1; } catch (std::exception&) { return 0; } catch (...) { return -1; }
  }
  void dates(const Slot& s, Rng& r) {
    const int y = s.f[0], m = s.f[1], d = s.f[2], doy = s.f[3], w = s.f[4];
    const bool leap = m_leap(y), vm = m >= 1 && m <= 12, vd = vm && d >= 1 && d <= m_mdays(y, m), vy = doy >= 1 && doy <= 365 + leap;
    LAZY(at, std::to_string(y) + "/" + std::to_string(m) + "/" + std::to_string(d));
    LAZY(ay, std::to_string(y) + "-" + std::to_string(doy));
    year Y{y}; month M{m}; day_of_month D{d}; day_of_year Z{doy};
    c.check(Y.is_leap() == leap, "leap", "year " + std::to_string(y) + (leap ? " is not" : " is") + " called a leap year");
    c.check(is_leap(y) == leap, "leap", "is_leap(" + std::to_string(y) + ") is " + (leap ? "false" : "true"));
    c.check(M.is_valid() == vm, "month_valid", "month " + std::to_string(m) + (vm ? " is called invalid" : " is called valid"));
    c.check(D.is_valid(Y, M) == vd, "day_valid", "day of month in " + at + (vd ? " is called invalid" : " is called valid"));
    c.check(Z.is_valid(Y) == vy, "doy_valid", "day of year in " + ay + (vy ? " is called invalid" : " is called valid"));
    c.check((ymd_date{Y, M, D}.is_valid()) == vd, "ymd_valid", "date " + at + (vd ? " is called invalid" : " is called valid"));
    c.check((ydoy_date{Y, Z}.is_valid()) == vy, "ydoy_valid", "date " + ay + (vy ? " is called invalid" : " is called valid"));
    c.check(gps_week{w}.is_valid() == (w >= 0), "week_valid", "gps week " + std::to_string(w) + (w >= 0 ? " is called invalid" : " is called valid"));
    if (y >= 1 && y <= 9999) {
      // building a date from calendar fields succeeds for exactly the dates that exist, and then names that day
      long got[3] = {0, 0, 0};
      int ok[3];
      ok[0] = guarded([&] { got[0] = cal2mjd(Y, M, D).as_underlying_type(); });
      ok[1] = guarded([&] { got[1] = modified_julian_day{Y, M, D}.as_underlying_type(); });
      switch (r.below(3)) {
        case 0: ok[2] = guarded([&] { got[2] = datetime<seconds>{Y, M, D, seconds{0}}.mjd().as_underlying_type(); }); break;
        case 1: ok[2] = guarded([&] { got[2] = datetime<milliseconds>{Y, M, D, hours{1}, minutes{2}, milliseconds{3}}.mjd().as_underlying_type(); }); break;
        default: ok[2] = guarded([&] { got[2] = datetime<microseconds>{Y, M, D, hours{23}, minutes{59}, 59.5}.mjd().as_underlying_type(); });
      }
      static const char* what[3] = {"cal2mjd", "modified_julian_day", "datetime"};
      const i64 e = vd ? m_mjd(y, m, d) : 0;
      for (int i = 0; i < 3; ++i) {
        c.check(ok[i] >= 0 && (ok[i] == 1) == vd, "build", std::string(what[i]) + " of " + at + (ok[i] == 1 ? " is accepted" : ok[i] ? " throws something that is not a std::exception" : " is rejected"));
        if (vd) c.check(got[i] == e, "build_day", std::string(what[i]) + " of " + at + " is day " + std::to_string(got[i]) + ", expected " + std::to_string(e));
      }
      if (vd) {
        ydoy_date q = ymd_date{Y, M, D}.to_ydoy();
        c.check(q.is_valid() && q.__year.as_underlying_type() == y && q.__doy.as_underlying_type() == e - m_mjd(y, 1, 1) + 1, "ymd_to_ydoy", at + " is day of year " + std::to_string(q.__doy.as_underlying_type()));
      }
      if (vy) {
        ymd_date q = ydoy_date{Y, Z}.to_ymd();
        Civil cv = m_civil(m_mjd(y, 1, 1) + doy - 1);
        c.check(q.is_valid() && q.__year.as_underlying_type() == y && q.__month.as_underlying_type() == cv.m && q.__dom.as_underlying_type() == cv.d, "ydoy_to_ymd", ay + " is " + std::to_string(q.__month.as_underlying_type()) + "/" + std::to_string(q.__dom.as_underlying_type()));
        long g = ydoy2mjd(Y, Z).as_underlying_type();
        c.check(g == m_mjd(y, 1, 1) + doy - 1, "build_day", "ydoy2mjd of " + ay + " is day " + std::to_string(g));
      }
    }
    if (vd) CNT("date.exists"); else CNT("date.does_not_exist");
    if (vy) CNT("doy.exists"); else CNT("doy.does_not_exist");
    c.obs((u64)(vd * 2 + vy));
    auto bin = [](i64 v, i64 lo, i64 hi) { return v < lo ? lo - 1 : v > hi ? hi + 1 : v; };
    c.sig(mix(mix((u64)bin(y, 0, 10000), (u64)bin(m, -1, 14)), mix((u64)bin(d, -1, 33), (u64)(vy * 2 + (doy >= 365) + 4 * (doy <= 1)))));
  }

  void step(const Step& s) {
    Slot& t = slot[fmod_(s.a[0], 3)];
    Slot& o = slot[fmod_(s.a[1], 3)];
    std::string& z = t.name;
    const size_t n = z.size(), pos = n ? (size_t)fmod_(s.a[1], (i64)n) : 0;
    const int k = (int)fmod_(s.a[1], 5);
    auto fault = [&](const char* f) { cnt(std::string("fault.") + f); ++c.faults; };
    switch (s.op) {
      case PUT: for (int i = 0; i < 5; ++i) { t.old[i] = t.f[i]; t.f[i] = (int)s.a[i + 1]; } break;
      case NAME: {
        t.oldname = z;
        std::string l = M_LONG[fmod_(s.a[1], 12)];
        z = s.a[2] & 1 ? l : l.substr(0, 3);
        for (size_t i = 0; i < z.size(); ++i) if ((s.a[3] >> i) & 1) z[i] = (char)(z[i] ^ 32);
        break;
      }
      case FLIP: t.f[k] ^= (int)(1u << fmod_(s.a[2], 32)); fault("bit_flip"); break;
      case DRIFT: t.f[k] = (int)((unsigned)t.f[k] + (unsigned)s.a[2]); fault("field_overwritten"); break;
      case ZERO: t.f[k] = 0; fault("zero_filled"); break;
      case SPLICE: { int q = (int)fmod_(s.a[2], 5); t.f[q] = o.f[q]; fault("field_of_another_record"); break; }
      case TORN: { int q = (int)fmod_(s.a[2], 4) + 1; unsigned mask = q == 4 ? 0xffffffffu : (1u << (8 * q)) - 1; t.f[k] = (int)(((unsigned)t.f[k] & mask) | ((unsigned)t.old[k] & ~mask)); fault("torn_write"); break; }
      case LOSTW: for (int i = 0; i < 5; ++i) t.f[i] = t.old[i]; z = t.oldname; fault("write_lost"); break;
      case NFLIP: if (n) { z[pos] = (char)(z[pos] ^ (1 << fmod_(s.a[2], 8))); fault("bit_flip"); } break;
      case NCUT: if (n) { z.resize(pos); fault("truncated"); } break;
      case NINS: if (n < 200) { z.insert(n ? (size_t)fmod_(s.a[1], (i64)n + 1) : 0, 1, (char)s.a[2]); fault("byte_inserted"); } break;
      case NDEL: if (n) { z.erase(pos, (size_t)fmod_(s.a[2], 4) + 1); fault("bytes_lost"); } break;
      case NDUP: if (n && n < 200) { z.insert(pos, z.substr(pos, (size_t)fmod_(s.a[2], 9) + 1)); fault("segment_duplicated"); } break;
      case NSPLICE: if (n && n < 200) { size_t q = (size_t)fmod_(s.a[2], (i64)n + 1); z = z.substr(0, q) + (o.name.size() > q ? o.name.substr(q) : ""); fault("spliced"); } break;
      case NCASE: for (size_t i = 0; i < n && i < 60; ++i) if ((s.a[1] >> i) & 1) z[i] = (char)(z[i] ^ 32); fault("case_bits_flipped"); break;
      case NZERO: if (n) { z[pos] = 0; fault("zero_filled"); } break;
      case NRUN: if (n < 200) { z.insert(pos, (size_t)fmod_(s.a[2], 9000) + 1, (char)s.a[3]); fault("long_run_inserted"); } break;
      case NNOISE: if (n < 200) { z.insert(n ? (size_t)fmod_(s.a[1], (i64)n + 1) : 0, NOISE[fmod_(s.a[2], NNOISES)]); fault("foreign_bytes_inserted"); } break;
      case NWORD: {
        z = WORDS[fmod_(s.a[1], NWORDS)];
        for (char& ch : z) if (s.a[2] == 1 && ch >= 'a' && ch <= 'z') ch = (char)(ch - 32); else if (s.a[2] == 2 && ch >= 'A' && ch <= 'Z') ch = (char)(ch + 32);
        fault("other_word_in_place");
        break;
      }
      case READ: { Rng r((u64)s.a[1]); if (c.is("C16")) { names(t); if (t.f[1] >= 1 && t.f[1] <= 12) back(t.f[1]); } else dates(t, r); break; }
    }
  }
};

void scn_init() {}
void scn_exec(Ctx& c) {
  Store w(c);
  for (auto& s : c.plan.steps) { dirty_stack(); if (!other(c, s)) w.step(s); }
}

Plan scn_gen(const std::string& prop, u64 seed) {
  Plan p;
  p.prop = prop;
  p.seed = seed;
  Rng r(seed);
  auto add = [&](int op, std::initializer_list<i64> a) {
    Step s;
    s.op = op;
    int i = 0;
    for (i64 v : a) s.a[i++] = v;
    p.steps.push_back(s);
  };
  const bool nm = prop == "C16";
  auto yr = [&]() -> i64 {
    switch (r.below(6)) {
      case 0: return r.range(1, 99) * 100;
      case 1: return r.range(1, 2499) * 4 + r.range(-1, 1);
      case 2: return r.range(1900, 2100);
      case 3: { static const i64 e[] = {1, 4, 100, 400, 1600, 1700, 1800, 1900, 2000, 2100, 9999, 9996, 10000, 0, -1, -4, -100, -400, 2147483647, -2147483647 - 1}; return r.pick(e); }
      default: return r.range(1, 9999);
    }
  };
  int rounds = (int)r.range(2, 10);
  for (int i = 0; i < rounds; ++i) {
    i64 sl = (i64)r.below(3);
    if (nm) {
      add(NAME, {sl, (i64)r.below(12), (i64)r.below(2), r.chance(1, 3) ? 0 : r.chance(1, 2) ? 0x1ff : (i64)r.below(512)});
      if (r.chance(1, 4)) { i64 m = r.range(1, 12); add(PUT, {sl, 2000, m, 1, 1, 0}); }
    } else {
      i64 y = yr(), m = r.range(1, 12), d, q;
      int md = m_mdays(y, (int)m), yd = 365 + m_leap(y);
      d = r.chance(1, 2) ? md : r.chance(1, 2) ? 1 : r.range(1, md);
      if (r.chance(1, 3)) { m = 2; d = r.range(27, m_mdays(y, 2)); }
      q = r.chance(1, 2) ? yd - (i64)r.below(2) : r.chance(1, 3) ? 1 : r.range(1, yd);
      add(PUT, {sl, y, m, d, q, (i64)r.logmag(12)});
    }
    int nf = (int)r.below(4);
    for (int f = 0; f < nf; ++f) {
      if (nm) {
        switch (r.below(11)) {
          case 9: add(NNOISE, {sl, (i64)r.below(10), (i64)r.below(NNOISES)}); break;
          case 10: add(NWORD, {sl, (i64)r.below(NWORDS), (i64)r.below(3)}); break;
          case 0: add(NFLIP, {sl, (i64)r.below(10), r.chance(1, 3) ? 5 : (i64)r.below(8)}); break;
          case 1: add(NCUT, {sl, (i64)r.below(10)}); break;
          case 2: { static const char ch[] = " .,-0aAeEryYtTsS\t\n\xe9\xb0"; add(NINS, {sl, (i64)r.below(10), r.chance(3, 4) ? (i64)(unsigned char)ch[r.below(sizeof ch - 1)] : (i64)r.below(256)}); break; }
          case 3: add(NDEL, {sl, (i64)r.below(10), (i64)r.below(4)}); break;
          case 4: add(NDUP, {sl, (i64)r.below(10), (i64)r.below(9)}); break;
          case 5: add(NSPLICE, {sl, (i64)r.below(3), (i64)r.below(10)}); break;
          case 6: add(NCASE, {sl, (i64)r.below(1024)}); break;
          case 7: add(NZERO, {sl, (i64)r.below(10)}); break;
          default: add(LOSTW, {sl});
        }
      } else {
        i64 k = (i64)r.below(5);
        switch (r.below(7)) {
          case 0: add(FLIP, {sl, k, r.chance(2, 3) ? (i64)r.below(5) : (i64)r.below(32)}); break;
          case 1: case 2: add(DRIFT, {sl, k, r.chance(2, 3) ? (r.chance(1, 2) ? 1 : -1) : r.chance(1, 2) ? r.range(-40, 40) : (r.chance(1, 2) ? 1 : -1) * r.logmag(31)}); break;
          case 3: add(ZERO, {sl, k}); break;
          case 4: add(SPLICE, {sl, (i64)r.below(3), (i64)r.below(5)}); break;
          case 5: add(TORN, {sl, k, (i64)r.below(4)}); break;
          default: add(LOSTW, {sl});
        }
      }
    }
    if (nm && r.chance(1, 40)) { static const char ch[] = "aeyrbnlt .0\xe9"; add(NRUN, {sl, (i64)r.below(10), r.chance(1, 2) ? (i64)(1 << r.range(3, 12)) + r.range(-8, 8) : r.range(4, 9000), (i64)(unsigned char)ch[r.below(sizeof ch - 1)]}); }
    add(READ, {sl, (i64)(r.next() >> 1)});
  }
  return p;
}
