// Text records: rendering from fields, an independent reference reader, and calls into the library's readers.
#pragma once
#include <cctype>
#include <exception>
#include "core.hpp"
#include "model.hpp"
#include "datetime_read.hpp"
#include "datetime_write.hpp"
#include "dtcalendar.hpp"

typedef __int128 i128;
enum Kind { K_YMD, K_YDOY, K_YMD_HMS, K_YOD_HMS, K_YDOY_HMS, K_MONTH, NKIND };
static const char* const KIND_NAME[] = {"strptime_ymd", "strptime_ydoy", "strptime_ymd_hms", "strptime_yod_hms", "strptime_ydoy_hms", "month(name)"};
static const char* const RES_NAME[] = {"s", "ms", "us"};

// ---------------------------------------------------------------- calls into the library
struct Got {
  bool ok = false;       // returned a value
  i64 mjd = 0, sec = 0;  // the value (month number in mjd for K_MONTH)
  i64 stop = -1;         // stop offset, -1 if not asked / not set
  bool operator==(const Got& o) const { return ok == o.ok && (!ok || (mjd == o.mjd && sec == o.sec && stop == o.stop)); }
  std::string str() const { return ok ? "(mjd " + std::to_string(mjd) + ", " + std::to_string(sec) + ", stop " + std::to_string(stop) + ")" : "rejected"; }
};
template <class S> Got call_reader_t(int kind, const char* s, bool want_stop) {
  Got g;
  char* stop = nullptr;
  char** sp = want_stop ? &stop : nullptr;
  ngpt::datetime<S> d{ngpt::modified_julian_day{0}, S{0}};
  switch (kind) {
    case K_YMD: d = ngpt::strptime_ymd<S>(s, sp); break;
    case K_YDOY: d = ngpt::strptime_ydoy<S>(s, sp); break;
    case K_YMD_HMS: d = ngpt::strptime_ymd_hms<S>(s, sp); break;
    case K_YOD_HMS: d = ngpt::strptime_yod_hms<S>(s, sp); break;
    case K_YDOY_HMS: d = ngpt::strptime_ydoy_hms<S>(s, sp); break;
  }
  g.ok = true;
  g.mjd = d.mjd().as_underlying_type();
  g.sec = d.sec_as_i();
  if (want_stop) g.stop = stop ? stop - s : -2;
  return g;
}
// may throw whatever the library throws
inline Got call_reader(int kind, int res, const char* s, bool want_stop) {
  dirty_stack();
  if (kind == K_MONTH) {
    ngpt::month m{s};
    Got g;
    g.ok = true;
    g.mjd = m.as_underlying_type();
    return g;
  }
  return res == 0 ? call_reader_t<ngpt::seconds>(kind, s, want_stop) : res == 1 ? call_reader_t<ngpt::milliseconds>(kind, s, want_stop) : call_reader_t<ngpt::microseconds>(kind, s, want_stop);
}
inline Got try_reader(int kind, int res, const char* s, bool want_stop) {
  try {
    return call_reader(kind, res, s, want_stop);
  } catch (std::exception&) {
    return Got{};
  }
}

// ---------------------------------------------------------------- reference reader
enum Verdict { STRICT, REJECT, GRAY };
struct Ref {
  Verdict v = REJECT;
  const char* why = "";
  // allowed totals, in units of the resolution, relative to MJD 0
  std::vector<std::pair<i128, i128>> allow;
  i64 end = 0;  // offset right after the last interpreted character (STRICT only)
  bool allows(i128 t) const {
    for (auto& a : allow) if (t >= a.first && t <= a.second) return true;
    return false;
  }
};
inline bool m_space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool m_digit(char c) { return c >= '0' && c <= '9'; }
inline bool m_alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline char m_lower(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
inline int m_month(const std::string& n) {  // exact, case-insensitive (ASCII), short or long
  std::string a;
  for (char c : n) a += m_lower(c);
  for (int i = 0; i < 12; ++i) {
    std::string l;
    for (const char* p = M_LONG[i]; *p; ++p) l += m_lower(*p);
    if (a == l || a == l.substr(0, 3)) return i + 1;
  }
  return 0;
}

inline Ref ref_read(int kind, int res, const char* s) {
  Ref r;
  if (kind == K_MONTH) {
    int m = m_month(s);
    if (m) { r.v = STRICT; r.allow.push_back({m, m}); }
    else r.why = "unknown month name";
    return r;
  }
  size_t pos = 0;
  bool strict = true;
  auto reject = [&](const char* why) { r.v = REJECT; r.why = why; return r; };
  // one integer field; false: missing or too large (why set)
  const char* why = "";
  auto intfield = [&](i64& out) {
    while (m_space(s[pos])) { ++pos; strict = false; }
    if (s[pos] == '+' || s[pos] == '-') { ++pos; strict = false; }
    if (!m_digit(s[pos])) { why = "required field missing"; return false; }
    i128 v = 0;
    size_t n = 0;
    for (; m_digit(s[pos]); ++pos, ++n) if (v < ((i128)1 << 100)) v = v * 10 + (s[pos] - '0');
    if (v > 2147483647) { why = "field too large"; return false; }
    if (n > 9) strict = false;
    out = (i64)v;
    return true;
  };
  auto delim = [&] { if (s[pos]) ++pos; };
  i64 y, m = 0, d = 0, doy = 0, H = 0, M = 0;
  if (!intfield(y)) return reject(why);
  bool isdoy = kind == K_YDOY || kind == K_YDOY_HMS;
  r.end = (i64)pos;
  delim();
  if (kind == K_YOD_HMS) {
    if (!m_alpha(s[pos])) {
      if (!s[pos]) return reject("required field missing");
      ++pos;
      strict = false;
    }
    std::string nm;
    for (int i = 0; i < 3 && s[pos + nm.size()]; ++i) nm += s[pos + nm.size()];
    m = nm.size() == 3 ? m_month(nm) : 0;
    if (!m) return reject("unknown month name");
    pos += 3;
    if (m_alpha(s[pos]) || m_digit(s[pos])) strict = false;
    delim();
    if (!intfield(d)) return reject(why);
  } else if (isdoy) {
    if (!intfield(doy)) return reject(why);
  } else {
    if (!intfield(m)) return reject(why);
    delim();
    if (!intfield(d)) return reject(why);
  }
  r.end = (i64)pos;
  std::vector<std::pair<i128, i128>> secs{{0, 0}};
  if (kind >= K_YMD_HMS) {
    delim();
    if (!intfield(H)) return reject(why);
    delim();
    if (!intfield(M)) return reject(why);
    delim();
    while (m_space(s[pos])) { ++pos; strict = false; }
    bool neg = false;
    if (s[pos] == '+' || s[pos] == '-') { neg = s[pos] == '-'; ++pos; strict = false; }
    std::string ip, fp;
    while (m_digit(s[pos])) ip += s[pos++];
    bool dot = false;
    if (s[pos] == '.' && (m_digit(s[pos + 1]) || !ip.empty())) {
      dot = true;
      ++pos;
      while (m_digit(s[pos])) fp += s[pos++];
    }
    if (ip.empty() && fp.empty()) return reject("required field missing");
    if (ip.empty() || (dot && fp.empty())) strict = false;
    r.end = (i64)pos;
    // integer part, saturating
    i128 iv = 0;
    for (char c : ip) if (iv < ((i128)1 << 90)) iv = iv * 10 + (c - '0');
    bool expo = false;
    i64 ex = 0;
    if (s[pos] == 'e' || s[pos] == 'E') {
      size_t q = pos + 1;
      bool en = false;
      if (s[q] == '+' || s[q] == '-') en = s[q++] == '-';
      if (m_digit(s[q])) {
        expo = true;
        for (; m_digit(s[q]); ++q) if (ex < 100000) ex = ex * 10 + (s[q] - '0');
        if (en) ex = -ex;
      }
      strict = false;
    }
    bool hex = ip == "0" && !dot && (s[pos] == 'x' || s[pos] == 'X');
    if (hex) strict = false;
    const i128 BIG = (i128)10000000000000LL;  // 1e13 s: cannot be represented in every resolution
    if (iv >= BIG && !expo) return reject("field too large");
    if (iv >= 60 || ip.size() > 2 || fp.size() > 15) strict = false;
    // value in units: floor of the exact decimal
    i128 u = iv * FAC[res], extra = 0;
    int rd = res == 0 ? 0 : res == 1 ? 3 : 6;
    i128 scale = FAC[res];
    for (int i = 0; i < rd; ++i) { scale /= 10; if (i < (int)fp.size()) u += (fp[(size_t)i] - '0') * scale; }
    // does the rest of the digits come within 1/1000 unit of the next one?
    bool near1 = false;
    if ((int)fp.size() > rd) {
      near1 = true;
      for (int i = 0; i < 3; ++i) near1 = near1 && rd + i < (int)fp.size() && fp[(size_t)(rd + i)] == '9';
    }
    (void)extra;
    secs.clear();
    if (strict) secs.push_back({u, u + (near1 ? 1 : 0)});
    else {
      i128 tol = 2 + u / ((i128)1000000000000000LL);
      i128 v = neg ? -u : u;
      secs.push_back({v - tol, v + tol});
      if (expo) {
        long double f = (long double)iv;
        long double w = 1;
        for (char c : fp) { w /= 10; f += (c - '0') * w; }
        f *= FAC[res];
        if (ex > 40) f = f == 0 ? 0 : 1e30L;
        else if (ex < -4000) f = 0;
        else { for (i64 i = 0; i < ex; ++i) f *= 10; for (i64 i = 0; i > ex; --i) f /= 10; }
        if (neg) f = -f;
        if (fabsl(f) < 9e18L) { i128 w2 = (i128)f, t2 = 2 + (w2 < 0 ? -w2 : w2) / ((i128)1000000000000000LL); secs.push_back({w2 - t2, w2 + t2}); }
      }
      if (hex) {
        static locale_t plain = newlocale(LC_ALL_MASK, "C", (locale_t)0);
        double hv = strtod_l(s + pos - 1, nullptr, plain);
        if (fabs(hv) < 9e12) { i128 w2 = (i128)(hv * (double)FAC[res]); if (neg) w2 = -w2; secs.push_back({w2 - 2 - (w2 < 0 ? -w2 : w2) / 1000000000000000LL, w2 + 2 + (w2 < 0 ? -w2 : w2) / 1000000000000000LL}); }
      }
    }
    if (expo || hex) strict = false;
  }
  i64 mjd;
  if (isdoy) {
    if (doy < 1 || doy > 365 + m_leap(y)) return reject("impossible day of year");
    mjd = m_mjd(y, 1, 1) + doy - 1;
  } else {
    if (m < 1 || m > 12) return reject("impossible month");
    if (d < 1 || d > m_mdays(y, (int)m)) return reject("impossible day of month");
    mjd = m_mjd(y, (int)m, (int)d);
  }
  if (y < 1 || y > 9999 || H > 23 || M > 59) strict = false;
  r.v = strict ? STRICT : GRAY;
  i128 t = ((i128)mjd * 86400 + H * 3600 + M * 60) * FAC[res];
  for (auto& p : secs) r.allow.push_back({t + p.first, t + p.second});
  return r;
}

// ---------------------------------------------------------------- rendering well-formed records
struct Fields {
  i64 mjd = 0;
  int H = 0, M = 0, S = 0;
  std::string frac;  // digits after the point, may be empty
};
inline std::string pad(i64 v, int w) {
  std::string t = std::to_string(v);
  while ((int)t.size() < w) t.insert(t.begin(), '0');
  return t;
}
struct Style {
  char d1 = '-', d2 = '-', sep = ' ', t1 = ':', t2 = ':';
  bool zero = true;
  int mcase = 0;  // 0 Jan 1 JAN 2 jan 3+ mixed
};
inline std::string mcased(const std::string& n, int k) {
  std::string o = n;
  for (size_t i = 0; i < o.size(); ++i) {
    bool up = k == 0 ? i == 0 : k == 1 ? true : k == 2 ? false : ((k >> (i % 5)) & 1);
    char c = m_lower(o[i]);
    o[i] = up ? (char)(c - 32) : c;
  }
  return o;
}
inline std::string render(int kind, const Fields& f, const Style& st) {
  Civil c = m_civil(f.mjd);
  if (kind == K_MONTH) {
    std::string n = M_LONG[c.m - 1];
    return mcased(st.zero ? n.substr(0, 3) : n, st.mcase);
  }
  std::string o = pad(c.y, st.zero ? 4 : 0);
  o += st.d1;
  if (kind == K_YDOY || kind == K_YDOY_HMS) o += pad(c.doy, st.zero ? 3 : 0);
  else {
    if (kind == K_YOD_HMS) o += mcased(std::string(M_LONG[c.m - 1]).substr(0, 3), st.mcase);
    else o += pad(c.m, st.zero ? 2 : 0);
    o += st.d2;
    o += pad(c.d, st.zero ? 2 : 0);
  }
  if (kind >= K_YMD_HMS) {
    o += st.sep;
    o += pad(f.H, st.zero ? 2 : 0);
    o += st.t1;
    o += pad(f.M, st.zero ? 2 : 0);
    o += st.t2;
    o += pad(f.S, st.zero ? 2 : 0);
    if (!f.frac.empty()) o += "." + f.frac;
  }
  return o;
}
inline i64 rnd_mjd(Rng& r) {
  switch (r.below(8)) {
    case 0: return r.range(MJD_LO, MJD_HI);
    case 1: { i64 y = r.range(1, 9999); return m_mjd(y, 12, 31) - r.range(0, 25); }
    case 2: { i64 y = r.range(1, 9998); return m_mjd(y, 2, 27) + r.range(0, 3); }
    case 3: { i64 y = r.range(1, 99) * 100; return m_mjd(y, 2, 27) + r.range(0, 3); }
    case 4: { i64 y = r.range(1, 9999); int m = (int)r.range(1, 12); return m_mjd(y, m, r.chance(1, 2) ? 1 : m_mdays(y, m)); }
    default: return r.range(40000, 66000);
  }
}
inline Fields rnd_fields(Rng& r) {
  Fields f;
  f.mjd = rnd_mjd(r);
  int z = (int)r.below(8);
  if (z == 0) {}
  else if (z == 1) f.H = 23, f.M = 59, f.S = 59;
  else if (z == 6) f.H = (int)r.below(24), f.M = r.chance(1, 2) ? 0 : 59, f.S = f.M;
  else if (z == 7) f.H = r.chance(1, 2) ? 12 : (int)r.below(24), f.M = r.chance(1, 2) ? 0 : (int)r.below(60), f.S = 0;
  else f.H = (int)r.below(24), f.M = (int)r.below(60), f.S = (int)r.below(60);
  static const int nd[] = {0, 0, 1, 2, 3, 3, 5, 6, 6, 9, 12};
  int n = r.pick(nd);
  if (n) {
    int w = (int)r.below(6);
    for (int i = 0; i < n; ++i) f.frac += w == 0 ? '0' : w == 1 ? '9' : (char)('0' + r.below(10));
    if (w == 2 && n >= 3) for (int i = 0; i < n - 1; ++i) f.frac[(size_t)i] = '0';
  }
  return f;
}
inline Style rnd_style(Rng& r) {
  Style s;
  static const char ds[] = {'-', '/', '.', ':', '_', ',', ';', 'T', '|', ' ', '*', '#', '\t', (char)0xb7};
  static const char ts[] = {':', ':', ':', '-', ' ', 'h', '_', '.', ',', '/', '\''};
  static const char mdl[] = {'-', '/', ' ', '.', '_', ':', ','};
  if (r.chance(1, 2)) { s.d1 = r.pick(ds); s.d2 = r.chance(1, 2) ? s.d1 : r.pick(mdl); }
  if (r.chance(1, 2)) s.sep = r.pick(ds);
  if (r.chance(1, 3)) { s.t1 = r.pick(ts); s.t2 = r.chance(1, 2) ? s.t1 : r.pick(ts); }
  s.zero = r.chance(3, 4);
  s.mcase = (int)r.below(36);
  if (r.chance(1, 2)) s.mcase = (int)r.below(3);
  return s;
}
// after a month name the delimiter must not be a letter or a digit
inline Style yod_style(Style s) {
  if (m_alpha(s.d2)) s.d2 = '-';
  return s;
}
inline std::string shown(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == 0) o += "\\0";
    else if (c == 10) o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; }
    else o += (char)c;
  }
  return "\"" + o + "\"";
}

// ---------------------------------------------------------------- guarded text buffers
#include <sys/mman.h>
#include <unistd.h>
// the text handed out is a read-only view of the pages (readers take a const char*), between two inaccessible ones
struct Guard {
  char *base = nullptr, *rw = nullptr;
  size_t pg = 4096, n;
  size_t room() const { return n * pg; }
  explicit Guard(size_t pages = 4) : n(pages) {
    int fd = memfd_create("text", 0);
    if (fd < 0 || ftruncate(fd, (off_t)(n * pg))) { fprintf(stderr, "no memory for texts\n"); _exit(3); }
    base = (char*)mmap(nullptr, (n + 2) * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mmap(base + pg, n * pg, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0);
    rw = (char*)mmap(nullptr, n * pg, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  }
  // the terminator is the last byte before an inaccessible page / the text starts right after one
  const char* put(const std::string& s, bool at_end) {
    size_t len = strlen(s.c_str());
    if (len > n * pg - 1) len = n * pg - 1;
    size_t at = at_end ? n * pg - 1 - len : 0;
    // stray bytes around the text are digits: reading them shows
    if (n <= 16) memset(rw, '7', n * pg);
    else memset(rw + (at < 64 ? 0 : at - 64), '7', at < 64 ? at : 64), memset(rw + at + len, '7', std::min<size_t>(64, n * pg - at - len));
    memcpy(rw + at, s.c_str(), len);
    rw[at + len] = 0;
    return base + pg + at;
  }
};
