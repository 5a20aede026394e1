// Scenario "medium": date records kept on a storage medium that truncates, tears, flips, overwrites, duplicates,
// zero-fills and splices them; whatever comes back is handed to the library's readers. Decides C07 and C08.
#include "records.hpp"
#include "noise.hpp"

const char* scn_name = "medium";
const int scn_others = OTHERS | STATES;
enum Op { WRITE, TRUNC, FLIP, OVER, INS, DEL, DUP, ZERO, SPLICE, DIGITS, ERASEF, SETF, READ, RUN, NOISE, HUGE };
const char* scn_ops[] = {"WRITE", "TRUNC", "FLIP", "OVER", "INS", "DEL", "DUP", "ZERO", "SPLICE", "DIGITS", "ERASEF", "SETF", "READ", "RUN", "NOISE", "HUGE", nullptr};
// WRITE slot : text | TRUNC slot pos | FLIP slot pos bit | OVER slot pos byte | INS slot pos byte | DEL slot pos len
// DUP slot pos len at | ZERO slot pos len | SPLICE slot other pos | DIGITS slot pos count digit
// RUN slot pos len byte (a long run of one byte: a stuck bus, an erased block)
// HUGE slot pos len byte (a run of megabytes: a file without line ends)
// NOISE slot pos : text (bytes of another encoding or program)
// ERASEF slot field | SETF slot field : text | READ slot kind res guard want_stop

static Guard *guard, *big;  // big: for texts of megabytes, made when first needed
void scn_init() { guard = new Guard; }

static const char* const SETV[] = {"0", "00", "13", "29", "30", "31", "32", "60", "61", "99", "365", "366", "367", "400", "999", "2147483647", "2147483648", "4294967296", "4294969311", "4294967297", "8589934593", "9223372036854775807", "9223372036854775808", "18446744073709551617", "99999999999999999999999", "-1", "-12", "1e3", "1e400", "1e-400", "0x1F", "nan", "inf", "-inf", "infinity", "NAN(1)", ".5", "5.", "59.9999999", "60.0", "1e18", "9.3e12", "999999999999", "1000000000001", "1e300", "-5.5", "Feb", "Foo", "Sept", "ju", "", " ", "+7", "--3", "-2147483648", "-2147483649", "-9223372036854775808", "0000000000000000000000000012"};

static const char* const NOISES[] = {"%s%n", "%n%n%n%n", "%999999999d", "\xef\xbb\xbf", "\xc2\xa0", "\r\n", "\x1b[1m", "\xff\xfe", "\xe2\x88\x92", "\xd9\xa1", " AM", " PM", "Z", "T", "+02:00", "-05:00", " UTC", " GPS", " BC", "th", "st", "^", "\"", "'", "--", "-+", "::", "..", ".e", "e+", "0x", "0b1", "1'000", "1,000", "1_000", "(", "\\0", "\x7f", "NaN", "inf"};
// what follows a record in a line
static const char* const SUFFIX[] = {" trailing text", "\n2015-12-30", "Z", " PM", " AM", "+02:00", "-05:00", " UTC", " 2015-12-30 00:00:00", "\r\n", " ", ";", ",", ":", "-", "/", "\t7", " +1", " -1 day", "(", "h", "s", "e", "E", "e+", "e-", "x1", "f", "p1", "'5", "_5", "\xff", "\xef\xbb\xbf", "%s"};
static void digit_runs(const std::string& t, std::vector<std::pair<size_t, size_t>>& v) {
  for (size_t i = 0; i < t.size();) {
    if (m_digit(t[i])) { size_t j = i; while (j < t.size() && m_digit(t[j])) ++j; v.push_back({i, j - i}); i = j; }
    else if (m_alpha(t[i])) { size_t j = i; while (j < t.size() && m_alpha(t[j])) ++j; if (j - i >= 3) v.push_back({i, j - i}); i = j; }
    else ++i;
  }
}

void scn_exec(Ctx& c) {
  std::string slot[4];
  for (auto& s : c.plan.steps) {
    if (other(c, s)) continue;
    std::string& t = slot[fmod_(s.a[0], 4)];
    size_t n = t.size(), pos = n ? (size_t)fmod_(s.a[1], (i64)n) : 0;
    auto fault = [&](const char* k) { cnt(std::string("fault.") + k); ++c.faults; };
    switch (s.op) {
      case WRITE: t = s.s.substr(0, 2000); break;
      case TRUNC: if (n) { t.resize(pos); fault("truncated"); } break;
      case FLIP: if (n) { t[pos] = (char)(t[pos] ^ (1 << fmod_(s.a[2], 8))); fault("bit_flip"); } break;
      case OVER: if (n) { t[pos] = (char)s.a[2]; fault("byte_overwritten"); } break;
      case INS: if (n < 3000) { t.insert(pos, 1, (char)s.a[2]); fault("byte_inserted"); } break;
      case DEL: if (n) { t.erase(pos, (size_t)fmod_(s.a[2], 12) + 1); fault("bytes_lost"); } break;
      case DUP: if (n && n < 3000) { std::string w = t.substr(pos, (size_t)fmod_(s.a[2], 20) + 1); t.insert((size_t)fmod_(s.a[3], (i64)n + 1), w); fault("segment_duplicated"); } break;
      case ZERO: if (n) { for (size_t i = pos; i < n && i < pos + (size_t)fmod_(s.a[2], 10) + 1; ++i) t[i] = 0; fault("zero_filled"); } break;
      case SPLICE: { const std::string& o = slot[fmod_(s.a[1], 4)]; if (n < 3000 && n) { pos = (size_t)fmod_(s.a[2], (i64)n); t = t.substr(0, pos) + (o.size() > pos ? o.substr(pos) : ""); fault("spliced"); } break; }
      case DIGITS: if (n && n < 3000) { t.insert(pos, (size_t)fmod_(s.a[2], 40) + 1, (char)('0' + fmod_(s.a[3], 10))); fault("digits_inserted"); } break;
      case RUN: if (n < 3000) { size_t k = (size_t)fmod_(s.a[2], 9000) + 1; if (n) t.insert(pos, k, (char)s.a[3]); else t.assign(k, (char)s.a[3]); fault("long_run_inserted"); } break;
      case HUGE: if (n < 3000) { size_t k = (size_t)fmod_(s.a[2], 3 << 20) + 1; t.insert(pos, k, (char)s.a[3]); fault("huge_run_inserted"); } break;
      case NOISE: if (n < 3000) { t.insert(n ? (size_t)fmod_(s.a[1], (i64)n + 1) : 0, s.s.substr(0, 60)); fault("foreign_bytes_inserted"); } break;
      case ERASEF: case SETF: {
        std::vector<std::pair<size_t, size_t>> v;
        digit_runs(t, v);
        if (v.empty() || n > 3000) break;
        auto f = v[(size_t)fmod_(s.a[1], (i64)v.size())];
        t.replace(f.first, f.second, s.op == SETF ? s.s.substr(0, 60) : "");
        fault(s.op == SETF ? "field_overwritten" : "field_lost");
        break;
      }
      case READ: {
        int kind = (int)fmod_(s.a[1], NKIND), res = (int)fmod_(s.a[2], 3);
        if (n >= guard->room() && !big) big = new Guard((3 << 20) / 4096 + 4);
        const char* p = (n < guard->room() ? guard : big)->put(t, s.a[3] & 1);
        bool ws = s.a[4] & 1;
        LAZY(what, std::string(KIND_NAME[kind]) + "<" + RES_NAME[res] + "> of " + (strlen(p) < 400 ? shown(p) : shown(std::string(p, 200)) + "... (" + std::to_string(strlen(p)) + " characters)"));
        Got g;
        bool threw = false;
        cnt(std::string("read.") + KIND_NAME[kind]);
        errno = 0;  // the readers' dependence on a stale errno is C10's subject
        try {
          g = call_reader(kind, res, p, ws);
        } catch (...) {
          threw = true;
        }
        errno = 0;
        c.obs((u64)threw);
        if (!threw) { c.obs((u64)g.mjd); c.obs((u64)g.sec); CNT("outcome.returned"); } else CNT("outcome.rejected");
        if (c.is("C07")) {
          if (threw || kind == K_MONTH) { c.check(threw || (g.mjd >= 1 && g.mjd <= 12), "month_range", what + " gives month " + std::to_string(g.mjd)); }
          else {
            c.check(g.sec >= 0 && g.sec < UPD(res), "unnormalised", what + " returned " + g.str());
            if (ws) { size_t L = strlen(p); c.check(g.stop >= 0 && g.stop <= (i64)L, "stop_outside", what + " (length " + std::to_string(L) + ") returned " + g.str()); }
          }
          c.sig(mix(mix((u64)kind * 8 + (u64)res * 2 + threw, strlen(p)), threw ? 0 : (u64)g.mjd % 64));
        } else {
          Ref r = ref_read(kind, res, p);
          static const char* vn[] = {"well_formed", "must_reject", "ambiguous"};
          cnt(std::string("class.") + vn[r.v]);
          i128 t2 = kind == K_MONTH ? (i128)g.mjd : (i128)g.mjd * UPD(res) + g.sec;
          auto want = [&] {
            std::string w;
            for (auto& a : r.allow) { i64 d = (i64)(a.first / UPD(res)); if ((i128)d * UPD(res) > a.first) --d; w += " (mjd " + std::to_string(d) + ", " + std::to_string((i64)(a.first - (i128)d * UPD(res))) + ")"; }
            return w;
          };
          if (r.v == REJECT) c.check(threw, "accepted", what + ": " + r.why + ", but returned " + g.str());
          else if (r.v == STRICT) {
            c.check(!threw, "rejected_good", what + " was rejected, expected" + want());
            c.check(r.allows(t2), "wrong_instant", what + " returned " + g.str() + ", expected" + want());
          } else c.check(threw || r.allows(t2), "wrong_instant", what + " returned " + g.str() + ", expected a rejection or" + want());
          c.sig(mix(mix((u64)kind * 64 + (u64)res * 16 + (u64)r.v * 4 + threw, hstr(r.why)), hstr(p) % 100003));
        }
        break;
      }
    }
  }
}

Plan scn_gen(const std::string& prop, u64 seed) {
  Plan p;
  p.prop = prop;
  p.seed = seed;
  Rng r(seed);
  auto add = [&](int op, std::initializer_list<i64> a, const std::string& t = "") {
    Step s;
    s.op = op;
    int i = 0;
    for (i64 v : a) s.a[i++] = v;
    s.s = t;
    p.steps.push_back(s);
  };
  int rounds = (int)r.range(1, 6);
  // swarm: which fault kinds this run uses
  unsigned mask = (unsigned)r.next();
  for (int k = 0; k < rounds; ++k) {
    int ns = (int)r.range(1, 3), kinds[3];
    for (int i = 0; i < ns; ++i) {
      kinds[i] = r.chance(1, 12) ? K_MONTH : (int)r.below(5);
      Style st = rnd_style(r);
      if (kinds[i] == K_YOD_HMS) st = yod_style(st);
      std::string t = render(kinds[i], rnd_fields(r), st);
      if (kinds[i] != K_MONTH && r.chance(1, 4)) t += r.pick(SUFFIX);
      add(WRITE, {i}, t);
    }
    int nf = prop == "C08" ? (int)r.below(3) : (int)r.below(5);
    for (int f = 0; f < nf; ++f) {
      i64 sl = (i64)r.below((u64)ns), pos = (i64)r.below(40);
      int op = (int)r.range(TRUNC, SETF);
      if (!((mask >> op) & 1)) op = r.chance(1, 2) ? (int)r.range(DIGITS, SETF) : TRUNC;
      switch (op) {
        case TRUNC: add(TRUNC, {sl, pos}); break;
        case FLIP: add(FLIP, {sl, pos, (i64)r.below(8)}); break;
        case OVER: { static const char ch[] = "0123456789-+:. eExXnNiI\0\n\t/aZ"; add(OVER, {sl, pos, r.chance(3, 4) ? (i64)(unsigned char)ch[r.below(sizeof ch)] : (i64)r.below(256)}); break; }
        case INS: { static const char ch[] = "0123456789-+:. eExX\0"; add(INS, {sl, pos, r.chance(3, 4) ? (i64)(unsigned char)ch[r.below(sizeof ch)] : (i64)r.below(256)}); break; }
        case DEL: add(DEL, {sl, pos, (i64)r.below(12)}); break;
        case DUP: add(DUP, {sl, pos, (i64)r.below(20), (i64)r.below(40)}); break;
        case ZERO: add(ZERO, {sl, pos, (i64)r.below(10)}); break;
        case SPLICE: add(SPLICE, {sl, (i64)r.below((u64)ns), pos}); break;
        case DIGITS: add(DIGITS, {sl, pos, r.chance(1, 2) ? (i64)r.below(4) : (i64)r.below(40), (i64)r.below(10)}); break;
        case ERASEF: add(ERASEF, {sl, (i64)r.below(7)}); break;
        default: add(SETF, {sl, (i64)r.below(7)}, r.chance(4, 5) ? SETV[r.below(sizeof SETV / sizeof *SETV)] : std::to_string(r.logmag(40)));
      }
    }
    if (r.chance(1, 8)) add(NOISE, {(i64)r.below((u64)ns), (i64)r.below(40)}, r.pick(NOISES));
    if (r.chance(1, 25)) {
      static const char ch[] = "0000112345679999    \t\tabcJMXz-:./x.\xff";
      static const i64 at[] = {0, 2, 4, 5, 7, 8, 9, 10, 11, 13, 14, 16, 17, 19, 20, 21, 39};
      i64 len = r.chance(1, 2) ? (i64)(1 << r.range(5, 12)) + r.range(-40, 8) : r.range(60, 9000);
      add(RUN, {(i64)r.below((u64)ns), r.chance(2, 3) ? r.pick(at) : (i64)r.below(40), len, (i64)(unsigned char)ch[r.below(sizeof ch - 1)]});
    }
    if (r.chance(1, prop == "C08" ? 12000 : 3000)) {
      static const char ch[] = "0019  \tabJMz-:./x.\xff";
      static const i64 at[] = {0, 0, 1, 4, 5, 7, 8, 10, 11, 13, 14, 16, 17, 19, 20, 21, 39};
      add(HUGE, {(i64)r.below((u64)ns), r.pick(at), r.range(1 << 20, (3 << 20) - 2), (i64)(unsigned char)ch[r.below(sizeof ch - 1)]});
    }
    for (int i = 0; i < ns; ++i) {
      int kd = r.chance(7, 8) ? kinds[i] : (int)r.below(NKIND);
      add(READ, {i, kd, (i64)r.below(3), (i64)r.below(2), (i64)r.below(2)});
    }
  }
  return p;
}
