// Scenario "stream": a producer writes delimited date records into a byte stream; the network delivers them in
// pieces of any size, stalls, resets connections and may end early; a consumer parses eagerly, resumes at the stop
// position the reader reports and persists how far it got. Decides C09.
#include "records.hpp"
#include "noise.hpp"

const char* scn_name = "stream";
const int scn_others = OTHERS | STATES;
enum Op { REC, NET, POLL, RESET, CRASH, END };
const char* scn_ops[] = {"REC", "NET", "POLL", "RESET", "CRASH", "END", nullptr};
// REC kind res bad ntrail : text + trailing + separator (ntrail: length of trailing text without separator)
// NET n (bytes delivered) | POLL guard persist | RESET (unconsumed bytes lost and sent again) | CRASH (consumer restarts at
// its persisted offset, what it read since is forgotten) | END cut (producer stops; the last `cut` bytes never arrive; everything else is delivered, drained)

static Guard* guard;
void scn_init() { guard = new Guard; }

struct Rec { int kind, res; bool bad; i64 start, end, full; std::string text; Ref ref; };

struct Sim {
  Ctx& c;
  std::string wire;        // everything the producer sent
  std::vector<Rec> recs;
  i64 got = 0;             // bytes delivered so far
  i64 off = 0;             // consumer's offset
  i64 d_off = 0;           // persisted
  size_t idx = 0, d_idx = 0;
  i64 limit = -1;          // where the stream ended (early end of file)
  Sim(Ctx& c_) : c(c_) {}

  std::string desc(const Rec& r, const std::string& w) { return std::string(KIND_NAME[r.kind]) + "<" + RES_NAME[r.res] + "> of " + shown(w); }

  // one parse attempt; true if a record was consumed
  bool poll(bool at_end, bool eof) {
    if (idx >= recs.size()) return false;
    const Rec& r = recs[idx];
    i64 sep_at = (i64)recs[idx].full - 1;       // offset of this record's separator
    std::string win = wire.substr((size_t)off, (size_t)(got - off));
    if (win.empty() && !eof) return false;
    if (win.size() > 12000) win.resize(12000);
    const char* p = guard->put(win, at_end);
    i64 len = (i64)strlen(p);
    bool whole = got > sep_at;                  // separator received
    errno = 0;
    Got g = try_reader(r.kind, r.res, p, true);
    errno = 0;
    Got g0 = try_reader(r.kind, r.res, p, false);
    errno = 0;
    CNT("attempts");
    c.check(g.ok == g0.ok && (!g.ok || (g.mjd == g0.mjd && g.sec == g0.sec)), "stop_changes_value", desc(r, p) + ": with a stop argument " + g.str() + ", without " + g0.str());
    c.obs((u64)g.ok);
    if (!g.ok) {
      if (whole) {
        c.check(r.bad, "rejected_good", "record " + std::to_string(idx) + " at the resumed position: " + desc(r, p) + " was rejected");
        CNT("records.skipped_bad");
        off = sep_at + 1;
        ++idx;
        return true;
      }
      CNT("attempts.incomplete");
      return false;
    }
    c.obs((u64)g.stop);
    c.check(g.stop >= 0 && g.stop <= len, "stop_outside", desc(r, p) + " (length " + std::to_string(len) + ") reports stop " + std::to_string(g.stop));
    // The position must mark the end of what the reader interpreted. With the value matching the text up to the
    // reference's end, only these two positions are possible.
    Ref w = ref_read(r.kind, r.res, p);
    if (w.v == STRICT) {
      i128 t = (i128)g.mjd * UPD(r.res) + g.sec;
      c.check(w.allows(t), "wrong_value", desc(r, p) + " returned " + g.str());
      c.check(g.stop == w.end || g.stop == w.end - 1, "stop_misplaced", desc(r, p) + " reports stop " + std::to_string(g.stop) + "; the interpreted text ends at " + std::to_string(w.end));
      CNT("stop_checked");
    }
    if (r.bad && whole) c.fail("bad_accepted", "record " + std::to_string(idx) + ": " + desc(r, p) + " was accepted");
    if (!eof && g.stop + 2 > len) { CNT("attempts.at_edge"); return false; }  // more of this record may still come
    if (!whole && eof) return false;                                           // truncated last record: not committed
    i64 end = g.stop < len && m_digit(p[g.stop]) ? g.stop + 1 : g.stop;
    // resume: everything up to the separator after the stop position is this record's trailing text
    i64 e = off + end;
    size_t s = wire.find(wire[(size_t)sep_at], (size_t)e);
    if ((i64)s >= got) { CNT("attempts.incomplete"); return false; }
    c.check(e == r.end && (i64)s == sep_at, "resume_wrong", "record " + std::to_string(idx) + " " + desc(r, p) + ": resuming after offset " + std::to_string(e) + ", the record's text ends at " + std::to_string(r.end));
    i128 t = (i128)g.mjd * UPD(r.res) + g.sec;
    c.check(r.ref.allows(t), "wrong_record", "record " + std::to_string(idx) + " " + shown(r.text) + " read as " + g.str() + " from " + desc(r, p));
    c.sig(mix(mix((u64)r.kind * 4 + (u64)r.res, (u64)(got - off - (r.full - r.start)) % 97), hstr(r.text.c_str()) % 1009 * 128 + (u64)(r.full - r.end) % 128));
    c.obs((u64)g.mjd); c.obs((u64)g.sec);
    CNT("records.read");
    off = sep_at + 1;
    ++idx;
    return true;
  }
};

void scn_exec(Ctx& c) {
  Sim S(c);
  for (auto& s : c.plan.steps) if (!other(c, s)) switch (dirty_stack(), s.op) {
    case REC: {
      if (s.s.empty() || S.limit >= 0 || S.wire.size() > 9000) break;
      Rec r;
      r.kind = (int)fmod_(s.a[0], 5); r.res = (int)fmod_(s.a[1], 3); r.bad = s.a[2] & 1;
      r.start = (i64)S.wire.size();
      i64 tl = s.a[3], n = (i64)s.s.size();
      if (tl < 0 || tl > n - 2) break;
      r.end = r.start + n - 1 - tl;
      r.full = r.start + n;
      r.text = s.s.substr(0, (size_t)(n - 1 - tl));
      r.ref = ref_read(r.kind, r.res, r.text.c_str());
      if (r.bad ? r.ref.v != REJECT : r.ref.v != STRICT || r.ref.end != n - 1 - tl) break;  // a reduced plan may not say what it means
      S.wire += s.s;
      S.recs.push_back(r);
      break;
    }
    case NET: {
      i64 lim = (i64)S.wire.size(), n = s.a[0] < 0 ? 0 : s.a[0];
      i64 to = S.got + n > lim ? lim : S.got + n;
      if (to > S.got && to < lim && to != (S.idx < S.recs.size() ? S.recs[S.idx].full : -1)) { CNT("fault.short_read"); ++c.faults; }
      if (n == 0) { CNT("fault.stall"); ++c.faults; }
      S.got = to;
      break;
    }
    case POLL:
      while (S.poll(s.a[0] & 1, false)) {}
      if (s.a[1] & 1) { S.d_off = S.off; S.d_idx = S.idx; CNT("offset_persisted"); }
      break;
    case RESET: if (S.got > S.off) { S.got = S.off; CNT("fault.connection_reset"); ++c.faults; } break;
    case CRASH: S.off = S.d_off; S.idx = S.d_idx; S.got = S.off; CNT("fault.consumer_crash"); ++c.faults; break;
    case END: {
      i64 cut = s.a[0] < 0 ? 0 : s.a[0], n = (i64)S.wire.size();
      i64 stop_at = cut >= n - S.got ? S.got : n - cut;
      if (cut) { CNT("fault.early_eof"); ++c.faults; }
      S.got = stop_at;
      while (S.poll(s.a[1] & 1, false)) {}
      while (S.poll(s.a[1] & 1, true)) {}
      // every record whose separator arrived has been read or skipped exactly once, in order
      size_t want = 0;
      while (want < S.recs.size() && S.recs[want].full <= stop_at) ++want;
      c.check(S.idx == want, "count", std::to_string(want) + " records arrived whole, " + std::to_string(S.idx) + " were read");
      return;
    }
  }
}

Plan scn_gen(const std::string& prop, u64 seed) {
  Plan p;
  p.prop = prop;
  p.seed = seed;
  Rng r(seed);
  auto add = [&](int op, std::initializer_list<i64> a, const std::string& t = "") {
    Step s;
    s.op = op;
    int i = 0;
    for (i64 v : a) s.a[i++] = v;
    s.s = t;
    p.steps.push_back(s);
  };
  int nrec = (int)r.range(1, 12);
  int mode = (int)r.below(3);  // tiny pieces, mixed, large pieces
  bool stalls = r.chance(1, 2), resets = r.chance(1, 2), crashes = r.chance(1, 2);
  int same = r.chance(1, 2) ? (int)r.below(5) : -1;
  bool trailing = r.chance(2, 3), badrecs = r.chance(1, 2);
  static const char seps[] = "\n\n;|,\t /&=@~";
  static const char* const trails[] = {"Z", " abc", " 12 34.5", ",1.5,2", "-7", "+02:00", " BRDC 0.25", ";x", "\t99", " 1e5", "|2015-12-30 12:00:00", ":", "- 3", "/4"};
  static const char* const bads[5][4] = {{"2015-13-02", "2015-00-12", "2015-02-30", "99999999999-01-01"}, {"2015-366", "2016-367", "2015-000", "4294967298-007"},
    {"2015-13-02 12:09:30.5", "2015-11-31 12:09:30", "2015-12-4294967297 00:00:00", "1900-02-29 23:59:59.9"}, {"2015-Foo-02 12:09:30.5", "2015-Sep-31 12:09:30", "2015-xyz-01 00:00:00", "2015-Feb-29 01:00:00.125"},
    {"2015-366 12:09:30.5", "2100-366 00:00:00", "2016-999 12:09:30", "8589934592-001 12:00:00"}};
  int sent = 0;
  auto deliver = [&] {
    int n = (int)r.range(1, 5);
    for (int i = 0; i < n; ++i) {
      i64 k = mode == 0 ? r.range(1, 4) : mode == 1 ? r.range(1, 30) : r.range(20, 400);
      if (stalls && r.chance(1, 5)) k = 0;
      add(NET, {k});
      if (r.chance(2, 3)) add(POLL, {(i64)r.below(2), r.chance(3, 4)});
      if (resets && r.chance(1, 12)) add(RESET, {});
      if (crashes && r.chance(1, 12)) add(CRASH, {});
    }
  };
  while (sent < nrec) {
    int batch = (int)r.range(1, 4);
    for (int b = 0; b < batch && sent < nrec; ++b, ++sent) {
      int kind = same >= 0 ? same : (int)r.below(5);
      bool bad = badrecs && r.chance(1, 5);
      std::string t, tr;
      if (bad) t = bads[kind][r.below(4)];
      else {
        Style st = rnd_style(r);
        if (kind == K_YOD_HMS) st = yod_style(st);
        t = render(kind, rnd_fields(r), st);
      }
      if (trailing && r.chance(2, 3)) tr = trails[r.below(sizeof trails / sizeof *trails)];
      char sep = 0;
      for (int k = 0; k < 60 && !sep; ++k) {
        char x = seps[r.below(sizeof seps - 1)];
        if (t.find(x) == std::string::npos && tr.find(x) == std::string::npos) sep = x;
      }
      if (!sep) sep = '@';
      add(REC, {kind, (i64)r.below(3), bad, (i64)tr.size()}, t + tr + sep);
    }
    deliver();
  }
  for (int i = 0; i < 6; ++i) deliver();
  add(END, {r.chance(1, 3) ? r.range(1, 60) : 0, (i64)r.below(2)});
  return p;
}
