// Scenario "disk": a node appends timestamps from its running clock to a text log on a simulated disk that writes
// short, fails, fills up, and on a crash loses, tears or zeroes whatever was not synced. After each crash the log is
// recovered and read back with the library's readers. Decides C06.
#include "records.hpp"
#include "noise.hpp"

const char* scn_name = "disk";
const int scn_others = OTHERS | STATES;
enum Op { SET, TICK, DAYS, APPEND, SYNC, CRASH, RECOVER, BURST };
const char* scn_ops[] = {"SET", "TICK", "DAYS", "APPEND", "SYNC", "CRASH", "RECOVER", "BURST", nullptr};
// SET res mjd units | TICK units | DAYS n | APPEND writer sep chunk fail | SYNC fail
// CRASH keep mode seed (keep: per mille of the unsynced bytes that survive; mode 0 cut, 1 lost sectors, 2 zeroed sectors)
// BURST seed count writer    count records of arbitrary instants written, synced and read back, a few at a time (writer 5: any)

struct Clock {
  int res = 2;
  ngpt::datetime<ngpt::seconds> s{ngpt::modified_julian_day{51544}, ngpt::seconds{0}};
  ngpt::datetime<ngpt::milliseconds> m{ngpt::modified_julian_day{51544}, ngpt::milliseconds{0}};
  ngpt::datetime<ngpt::microseconds> u{ngpt::modified_julian_day{51544}, ngpt::microseconds{0}};
  template <class F> auto with(F f) { return res == 0 ? f(s) : res == 1 ? f(m) : f(u); }
  i64 mjd() { return with([](auto& d) { return (i64)d.mjd().as_underlying_type(); }); }
  i64 sec() { return with([](auto& d) { return (i64)d.sec_as_i(); }); }
  void set(int r, i64 mjd, i64 units) {
    res = r;
    if (r == 0) s = decltype(s){ngpt::modified_julian_day{mjd}, ngpt::seconds{units}};
    else if (r == 1) m = decltype(m){ngpt::modified_julian_day{mjd}, ngpt::milliseconds{units}};
    else u = decltype(u){ngpt::modified_julian_day{mjd}, ngpt::microseconds{units}};
  }
  void tick(i64 n) {
    if (res == 0) s.add_seconds(ngpt::seconds{n});
    else if (res == 1) m.add_seconds(ngpt::milliseconds{n});
    else u.add_seconds(ngpt::microseconds{n});
  }
  std::string text(int w, int sep) {
    return with([&](auto& d) -> std::string {
      if (w == 0) return sep ? ngpt::strftime_ymd_hms(d, (char)sep) : ngpt::strftime_ymd_hms(d);
      if (w == 1) return sep ? ngpt::strftime_ymd_hmfs(d, (char)sep) : ngpt::strftime_ymd_hmfs(d);
      if (w == 2) return d.stringify();
      // the application composes the line itself from the clock's readings
      auto h = d.as_hmsf();
      std::string t = " " + pad(std::get<0>(h).as_underlying_type(), 2) + ":" + pad(std::get<1>(h).as_underlying_type(), 2) + ":" + pad(std::get<2>(h).as_underlying_type(), 2);
      if (res) t += "." + pad(std::get<3>(h), res * 3);
      char sp = sep && !m_digit((char)sep) && !m_alpha((char)sep) ? (char)sep : '-';
      if (w == 3) { auto y = d.as_ymd(); return pad(y.__year.as_underlying_type(), 4) + sp + y.__month.short_name() + sp + pad(y.__dom.as_underlying_type(), 2) + t; }
      auto y = d.as_ydoy();
      return pad(y.__year.as_underlying_type(), 4) + sp + pad(y.__doy.as_underlying_type(), 3) + t;
    });
  }
};
static const char* const WN[] = {"strftime_ymd_hms", "strftime_ymd_hmfs", "stringify", "line with month name", "line with day of year"};
static const int WK[] = {K_YMD_HMS, K_YMD_HMS, K_YMD_HMS, K_YOD_HMS, K_YDOY_HMS};

struct Entry { int res, w; i64 mjd, sec; std::string text; bool acked = false; char sep = '-'; };

static u64 crc(const std::string& s) { return hstr(s.c_str()) ^ s.size(); }
static std::string frame(const std::string& t) {
  char b[32];
  snprintf(b, sizeof b, "%04x%08llx ", (unsigned)t.size(), crc(t) & 0xffffffffULL);
  return b + t + "\n";
}

static Guard* guard;
void scn_init() { guard = new Guard; }

struct Disk {
  std::string data;        // what the file system shows
  size_t synced = 0;       // bytes guaranteed to survive a crash
};

static void verify(Ctx& c, const std::vector<Entry>& log, const std::vector<std::string>& back, bool burst = false) {
  std::map<int, std::pair<const Entry*, i128>> last;  // per writer and resolution: previous record read back
  std::vector<std::pair<i64, std::string>> sorted[2];  // per writer: time to the second or minute, and the text
  for (size_t i = 0; i < back.size(); ++i) {
    const Entry& e = log[i];
    const std::string& t = back[i];
    LAZY(what, std::string(WN[e.w]) + " of datetime<" + RES_NAME[e.res] + ">(mjd " + std::to_string(e.mjd) + ", " + std::to_string(e.sec) + ") wrote " + shown(t));
    // candidate instants the text may name, in microseconds
    i128 us = ((i128)e.mjd * UPD(e.res) + e.sec) * (FAC[2] / FAC[e.res]);
    std::vector<i128> cand;
    if (e.w == 0) { i64 m = 1000000; i128 q = us / m; if (q * m > us) --q; cand = {q * m}; }
    else if (e.w == 1) {
      i128 q = us / 10; if (q * 10 > us) --q;
      int rem = (int)(us - q * 10);
      if (rem <= 5) cand.push_back(q * 10);
      if (rem >= 5) cand.push_back(q * 10 + 10);
    } else cand = {us};
    for (int rr = 0; rr < 3; ++rr) {
      int res = (e.res + rr) % 3;  // its own resolution first
      const char* p = guard->put(t, true);
      errno = 0;
      Got g;
      try { g = call_reader(WK[e.w], res, p, true); } catch (std::exception& x) { c.check(false, "unreadable", what + ", which " + KIND_NAME[WK[e.w]] + "<" + RES_NAME[res] + "> rejects: " + x.what()); }
      errno = 0;
      i128 v = (i128)g.mjd * UPD(res) + g.sec;
      bool ok = false;
      for (i128 k : cand) { i128 per = FAC[2] / FAC[res], q = k / per; if (q * per > k) --q; ok = ok || q == v; }
      c.check(ok, "wrong_instant", what + ", which reads back as datetime<" + RES_NAME[res] + ">" + g.str());
      c.obs((u64)g.mjd); c.obs((u64)g.sec);
      if (rr == 0) {
        i128 tv = (i128)e.mjd * UPD(e.res) + e.sec;
        auto& l = last[e.w * 3 + e.res];
        if (l.first) {
          i128 pv = (i128)l.first->mjd * UPD(e.res) + l.first->sec;
          c.check(!(pv <= tv && l.second > v) && !(pv >= tv && l.second < v), "order", what + ", which reads back in the wrong order relative to the record " + shown(l.first->text));
        }
        l = {&e, v};
      }
    }
    const char* p = guard->put(t, false);
    Got g = e.w == 3 ? Got{} : try_reader(e.w == 4 ? K_YDOY : K_YMD, e.res, p, false);
    if (e.w != 3) c.check(g.ok && g.mjd == e.mjd && g.sec == 0, "wrong_date", what + ", whose date reads as " + g.str());
    if (e.w <= 1 && t.size() >= 19) {
      // the form is fixed-width down to the second (minute, where the seconds carry a fraction), so lines sort as text
      i64 q = FAC[e.res], in_min = e.sec % (60 * q);
      bool rounds_up = e.w == 1 && (in_min * (1000000 / q)) > 59999980;  // to the next minute, when rounded
      if (!rounds_up) {
        Civil cv = m_civil(e.mjd);
        i64 s0 = e.sec / q;
        std::string head = pad(cv.y, 4) + e.sep + pad(cv.m, 2) + e.sep + pad(cv.d, 2) + " " + pad(s0 / 3600, 2) + ":" + pad(s0 / 60 % 60, 2) + ":" + (e.w == 0 ? pad(s0 % 60, 2) : "");
        c.check(e.w == 0 ? t == head : t.compare(0, head.size(), head) == 0, "layout", what + ", expected YYYY-MM-DD HH:MM:SS: " + shown(head));
        std::string key = t.substr(0, e.w == 0 ? std::string::npos : 16);
        key[4] = key[7] = '-';
        i64 g = e.w == 0 ? e.mjd * 86400 + e.sec / q : e.mjd * 1440 + e.sec / (60 * q);
        for (auto& o : sorted[e.w]) c.check((o.first < g) == (o.second < key) && (o.first > g) == (o.second > key), "text_order", what + ", which does not sort as text in time order with " + shown(o.second));
        if (sorted[e.w].size() < 60) sorted[e.w].push_back({g, key});
      }
    } else if (e.w <= 1) c.check(false, "text_order", what + ", too short for YYYY-MM-DD hh:mm:ss");
    if (burst) continue;
    CNT("read_back");
    c.sig(mix((u64)(e.w * 3 + e.res), mix((u64)(e.mjd - MJD_LO) % 146097, (u64)(e.sec / (FAC[e.res] * 600)))));
  }
}

void scn_exec(Ctx& c) {
  Clock k;
  Disk d;
  std::vector<Entry> log;  // in append order, those whose frame is (as far as the application knows) in the file
  auto recover = [&] {
    std::vector<std::string> back;
    size_t pos = 0;
    while (pos + 14 <= d.data.size()) {
      unsigned len = 0; unsigned long long h = 0;
      if (sscanf(d.data.substr(pos, 13).c_str(), "%4x%8llx ", &len, &h) != 2 || pos + 13 + len + 1 > d.data.size()) break;
      std::string t = d.data.substr(pos + 13, len);
      if ((crc(t) & 0xffffffffULL) != h || d.data[pos + 13 + len] != '\n') break;
      back.push_back(t);
      pos += 13 + len + 1;
    }
    size_t acked = 0;
    for (auto& e : log) if (e.acked) ++acked;
    c.check(back.size() >= acked && back.size() <= log.size(), "lost", std::to_string(acked) + " acknowledged, " + std::to_string(back.size()) + " recovered");
    verify(c, log, back);
    log.resize(back.size());
    for (auto& e : log) e.acked = true;
    d.data.resize(pos);
    d.synced = pos;
    CNT("recoveries");
  };
  for (auto& s : c.plan.steps) if (!other(c, s)) switch (dirty_stack(), s.op) {
    case SET: {
      int r = (int)fmod_(s.a[0], 3);
      i64 m = s.a[1] < MJD_LO ? MJD_LO : s.a[1] > MJD_HI ? MJD_HI : s.a[1];
      k.set(r, m, fmod_(s.a[2], UPD(r)));
      CNT("fault.clock_step"); ++c.faults;
      break;
    }
    case TICK: {
      i64 n = s.a[0], days = n / UPD(k.res) + (n < 0 ? -1 : 1);
      if (k.mjd() + days < MJD_LO || k.mjd() + days > MJD_HI) break;
      if (n < 0) { CNT("fault.clock_back"); ++c.faults; }
      k.tick(n);
      c.simtime += fabs((double)n) / (double)FAC[k.res];
      break;
    }
    case DAYS: {
      i64 n = s.a[0];
      if (k.mjd() + n < MJD_LO || k.mjd() + n > MJD_HI) break;
      k.set(k.res, k.mjd() + n, k.sec());
      CNT("fault.clock_step"); ++c.faults;
      break;
    }
    case APPEND: {
      Entry e;
      e.res = k.res; e.w = (int)fmod_(s.a[0], 5); e.mjd = k.mjd(); e.sec = k.sec();
      int sep = (int)(s.a[1] & 255);
      if (sep && m_digit((char)sep)) sep = '-';
      e.text = k.text(e.w, sep);
      if (sep) e.sep = (char)sep;
      cnt(std::string("writes.") + WN[e.w]);
      c.obs(e.text);
      std::string f = frame(e.text);
      size_t at = d.data.size();
      if (s.a[3] & 1) {  // disk full or I/O error after some bytes: the application cuts the file back, no acknowledgement
        d.data += f.substr(0, (size_t)fmod_(s.a[2], (i64)f.size()));
        d.data.resize(at);
        if (d.synced > at) d.synced = at;
        CNT("fault.write_error"); ++c.faults;
        break;
      }
      // short writes, retried until all is in the page cache
      size_t ch = s.a[2] > 0 ? (size_t)s.a[2] : f.size();
      if (ch < f.size()) { CNT("fault.short_write"); ++c.faults; }
      for (size_t i = 0; i < f.size(); i += ch) d.data += f.substr(i, ch);
      log.push_back(e);
      break;
    }
    case SYNC:
      if (s.a[0] & 1) { CNT("fault.fsync_error"); ++c.faults; }
      else { d.synced = d.data.size(); for (auto& e : log) e.acked = true; CNT("synced"); }
      break;
    case CRASH: {
      Rng r((u64)s.a[2]);
      size_t un = d.data.size() - d.synced, keep = un * (size_t)fmod_(s.a[0], 1001) / 1000;
      int mode = (int)fmod_(s.a[1], 3);
      if (mode == 0) d.data.resize(d.synced + keep);
      else for (size_t i = d.synced; i < d.data.size(); i += 16) if (r.below(1000) >= (u64)fmod_(s.a[0], 1001)) for (size_t j = i; j < i + 16 && j < d.data.size(); ++j) d.data[j] = mode == 1 ? (char)r.below(256) : 0;
      static const char* const mn[] = {"fault.crash_tail_cut", "fault.crash_sectors_torn", "fault.crash_sectors_zeroed"};
      cnt(mn[mode]); ++c.faults;
      recover();
      break;
    }
    case RECOVER: recover(); break;
    case BURST: {
      Rng r((u64)s.a[0]);
      const i64 count = fmod_(s.a[1], 2049);
      Clock b;
      for (i64 i = 0; i < count;) {
        std::vector<Entry> es;
        std::vector<std::string> ts;
        for (int j = 0; j < 6 && i < count; ++j, ++i) {
          Entry e;
          e.res = (int)r.below(3);
          e.w = s.a[2] == 5 ? (int)r.below(5) : (int)fmod_(s.a[2], 5);
          e.mjd = r.range(MJD_LO, MJD_HI);
          e.sec = (i64)(r.next() % (u64)UPD(e.res));
          b.set(e.res, e.mjd, e.sec);
          e.text = b.text(e.w, 0);
          ts.push_back(e.text);
          es.push_back(std::move(e));
        }
        verify(c, es, ts, true);
      }
      cnt("read_back_in_bursts", (u64)count);
      break;
    }
  }
}

Plan scn_gen(const std::string& prop, u64 seed) {
  Plan p;
  p.prop = prop;
  p.seed = seed;
  Rng r(seed);
  auto add = [&](int op, std::initializer_list<i64> a) {
    Step s;
    s.op = op;
    int i = 0;
    for (i64 v : a) s.a[i++] = v;
    p.steps.push_back(s);
  };
  int n = (int)r.range(4, 60), res = 0;
  unsigned mask = (unsigned)r.next();
  static const char seps[] = "-/.:_ ,;T|*#+eExh\t\n@";
  auto set = [&] {
    res = (int)r.below(3);
    i64 u = 0, upd = UPD(res);
    switch (r.below(8)) {
      case 0: u = 0; break;
      case 7: u = r.range(0, 23) * 3600 * FAC[res] + (r.chance(1, 2) ? 0 : r.range(-2, 2) * (r.chance(1, 2) ? 1 : FAC[res])); if (u < 0) u = 0; break;
      case 1: u = upd - 1; break;
      case 2: u = upd - 1 - r.range(0, 12); break;
      case 3: u = r.range(0, 86399) * FAC[res] + (FAC[res] - 1 - (r.chance(1, 2) ? r.range(0, 12) % FAC[res] : 0)); break;
      case 4: u = r.range(0, 1439) * 60 * FAC[res] + r.range(0, 20); break;
      default: u = r.range(0, upd - 1);
    }
    add(SET, {res, rnd_mjd(r), u});
  };
  set();
  for (int i = 0; i < n; ++i) {
    int x = (int)r.below(20);
    if (x < 2) set();
    else if (x < 7) {
      i64 v;
      switch (r.below(5)) {
        case 0: v = r.range(1, 15); break;
        case 1: v = FAC[res] * r.range(1, 90000); break;
        case 2: v = r.logmag(44); break;
        case 3: v = FAC[res] - r.range(0, 2); break;
        default: v = r.range(0, UPD(res));
      }
      if ((mask & 1) && r.chance(1, 4)) v = -v;
      add(TICK, {v});
    } else if (x < 8) add(DAYS, {r.chance(1, 2) ? r.range(-40, 40) : r.range(-200000, 200000)});
    else if (x < 16) {
      i64 sep = r.chance(1, 4) ? 0 : r.chance(3, 4) ? (i64)(unsigned char)seps[r.below(sizeof seps - 1)] : r.range(1, 255);
      add(APPEND, {(i64)r.below(5), sep, (mask & 2) && r.chance(1, 3) ? r.range(1, 20) : 0, (mask & 4) && r.chance(1, 10)});
    } else if (x < 18) add(SYNC, {(mask & 8) && r.chance(1, 5)});
    else if (r.chance(1, 2)) add(CRASH, {r.chance(1, 4) ? 0 : r.range(0, 1000), (i64)r.below(3), (i64)(r.next() >> 1)});
  }
  if (r.chance(1, 2)) add(BURST, {(i64)(r.next() >> 1), r.range(5, 120), r.chance(1, 2) ? 5 : (i64)r.below(5)});
  if (r.chance(1, 2)) add(SYNC, {0});
  add(CRASH, {r.range(0, 1000), (i64)r.below(3), (i64)(r.next() >> 1)});
  return p;
}
