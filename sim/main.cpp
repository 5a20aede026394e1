// Command line of a simulator binary (one scenario per binary).
//   sim run  PROP BASE FIRST COUNT STATUS OUT [SECONDS]   run seeds; stop at first violation
//   sim gen  PROP RUNSEED                                  print the plan of a seed
//   sim exec PLAN [-v]                                     execute a plan file
//   sim hash PROP BASE FIRST COUNT                         event-log hash of each run
#include <locale.h>
#include <malloc.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

#include <locale>

#include "core.hpp"

static u64 run_seed(u64 base, u64 i, const std::string& prop) {
  Rng r(base * 0x2545F4914F6CDD1DULL + i);
  return mix(r.next(), hstr(prop.c_str())) ;
}

static std::string hexs(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string o;
  for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
  return o.empty() ? "-" : o;
}
static std::string unhex(const char* p) {
  std::string o;
  if (*p == '-') return o;
  auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (; p[0] && p[1]; p += 2) o += (char)(v(p[0]) * 16 + v(p[1]));
  return o;
}
static std::string plan_text(const Plan& p) {
  std::string o = "ggsim-plan 1\nscn " + std::string(scn_name) + "\nprop " + p.prop + "\nseed " + std::to_string(p.seed) + "\n";
  for (auto& s : p.steps) {
    o += "s " + std::string(s.op == OP_OTHER ? "OTHER" : s.op == OP_STATE ? "STATE" : scn_ops[s.op]);
    for (i64 a : s.a) o += " " + std::to_string(a);
    o += " " + hexs(s.s) + "\n";
  }
  return o;
}
static Plan plan_parse(const char* file) {
  Plan p;
  FILE* f = fopen(file, "r");
  if (!f) { perror(file); exit(3); }
  static char line[1 << 20], nm[64], hx[1 << 20];
  while (fgets(line, sizeof line, f)) {
    if (!strncmp(line, "prop ", 5)) { p.prop = line + 5; while (!p.prop.empty() && p.prop.back() <= ' ') p.prop.pop_back(); }
    else if (!strncmp(line, "seed ", 5)) p.seed = strtoull(line + 5, nullptr, 10);
    else if (!strncmp(line, "scn ", 4)) {
      std::string n = line + 4; while (!n.empty() && n.back() <= ' ') n.pop_back();
      if (n != scn_name) { fprintf(stderr, "plan is for scenario %s\n", n.c_str()); exit(3); }
    } else if (line[0] == 's' && line[1] == ' ') {
      Step s;
      if (sscanf(line + 2, "%63s %lld %lld %lld %lld %lld %lld %s", nm, &s.a[0], &s.a[1], &s.a[2], &s.a[3], &s.a[4], &s.a[5], hx) != 8) { fprintf(stderr, "bad step: %s", line); exit(3); }
      s.s = unhex(hx);
      s.op = -1;
      if (!strcmp(nm, "OTHER")) s.op = OP_OTHER;
      if (!strcmp(nm, "STATE")) s.op = OP_STATE;
      for (int i = 0; scn_ops[i]; ++i) if (!strcmp(scn_ops[i], nm)) s.op = i;
      if (s.op < 0) { fprintf(stderr, "unknown op %s\n", nm); exit(3); }
      p.steps.push_back(s);
    }
  }
  fclose(f);
  return p;
}

static double now() {  // wall clock of the driver loop only: bounds a batch between runs, never inside one
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static std::string oneline(std::string s) {
  for (char& c : s) if ((unsigned char)c < 32 || (unsigned char)c > 126) c = '?';
  return s;
}

static Plan make_plan(const std::string& prop, u64 seed) {
  Plan p = scn_gen(prop, seed);
  Rng r(seed ^ 0x07be57ULL);
  bool oth = (scn_others & OTHERS) && r.chance(1, 3), sta = (scn_others & STATES) && r.chance(1, 8);
  if (!oth && !sta) return p;
  int per = (int)r.range(2, 12), sper = (int)r.range(3, 20);
  std::vector<Step> v;
  for (auto& s : p.steps) {
    if (oth && r.chance(1, per)) { Step o; o.op = OP_OTHER; o.a[0] = (i64)(r.next() >> 1); v.push_back(o); }
    if (sta && r.chance(1, sper)) { Step o; o.op = OP_STATE; o.a[0] = (i64)r.below(9); o.a[1] = (i64)r.below(1000); o.a[2] = (i64)r.below(4); v.push_back(o); }
    v.push_back(s);
  }
  p.steps.swap(v);
  return p;
}
static void run_plan(const Plan& p, Ctx& c) {
  struct Reset {
    ~Reset() {
      if (state_reset()) state_reset()();
      setlocale(LC_ALL, "C");
      uselocale(LC_GLOBAL_LOCALE);
      std::locale::global(std::locale::classic());
    }
  } reset;  // whatever the run left in force ends with it
  dirt_of(p.seed);
  dirty_stack<16000>();
  scn_exec(c);
}

int main(int argc, char** argv) {
  if (argc < 2) return 3;
  std::string cmd = argv[1];
  // the same addresses in every process
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("GGSIM_FIXED") && personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) {
    setenv("GGSIM_FIXED", "1", 1);
    // records longer than the stack of a small thread
    rlimit st;
    if (!strcmp(scn_name, "medium") && !getrlimit(RLIMIT_STACK, &st)) { st.rlim_cur = std::min<rlim_t>(st.rlim_max, 1 << 20); setrlimit(RLIMIT_STACK, &st); }
    execv("/proc/self/exe", argv);
  }
  mallopt(M_PERTURB, 0xA5);
  scn_init();
  if (cmd == "gen" && argc == 4) {
    fputs(plan_text(make_plan(argv[2], strtoull(argv[3], nullptr, 10))).c_str(), stdout);
    return 0;
  }
  if (cmd == "seedof" && argc == 5) {
    printf("%llu\n", run_seed(strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10), argv[2]));
    return 0;
  }
  if (cmd == "exec" && argc >= 3) {
    Plan p = plan_parse(argv[2]);
    Ctx c(p);
    c.verbose = argc > 3;
    try {
      run_plan(p, c);
    } catch (Violation& v) {
      printf("RESULT viol %s hash=%016llx :: %s\n", v.cls.c_str(), c.h, oneline(v.detail).c_str());
      fflush(stdout);
      _exit(10);
    }
    printf("RESULT ok hash=%016llx checks=%llu\n", c.h, c.checks);
    fflush(stdout);
    _exit(0);
  }
  if (cmd == "hash" && argc == 6) {
    u64 base = strtoull(argv[3], nullptr, 10), first = strtoull(argv[4], nullptr, 10), n = strtoull(argv[5], nullptr, 10);
    for (u64 i = first; i < first + n; ++i) {
      Plan p = make_plan(argv[2], run_seed(base, i, argv[2]));
      Ctx c(p);
      const char* r = "ok";
      try { run_plan(p, c); } catch (Violation&) { r = "viol"; }
      printf("%llu %s %016llx\n", i, r, c.h);
    }
    fflush(stdout);
    _exit(0);
  }
  if (cmd == "run" && argc >= 8) {
    std::string prop = argv[2];
    u64 base = strtoull(argv[3], nullptr, 10), first = strtoull(argv[4], nullptr, 10), n = strtoull(argv[5], nullptr, 10);
    int fd = open(argv[6], O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, 4096)) return 3;
    volatile u64* status = (volatile u64*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    double limit = argc > 8 ? atof(argv[8]) : 1e9, t0 = now();
    std::unordered_set<u64> sigs, hashes;
    u64 runs = 0, steps = 0, nontrivial = 0, checks = 0, faults = 0;
    double simtime = 0;
    int rc = 0;
    std::string viol;
    for (u64 i = first; i < first + n; ++i) {
      if ((i & 15) == 0 && now() - t0 > limit) break;
      u64 rs = run_seed(base, i, prop);
      status[0] = rs;
      status[1] = i + 1;
      Plan p = make_plan(prop, rs);
      Ctx c(p);
      c.sigs = &sigs;
      try {
        run_plan(p, c);
      } catch (Violation& v) {
        viol = std::to_string(rs) + " " + v.cls + " :: " + oneline(v.detail);
        rc = 10;
      }
      ++runs;
      steps += p.steps.size();
      checks += c.checks;
      faults += c.faults;
      simtime += c.simtime;
      if (c.checks && c.faults) { ++nontrivial; if (hashes.size() < 400000) hashes.insert(c.h); }
      if (rc) break;
    }
    std::string out = argv[7];
    FILE* f = fopen(out.c_str(), "w");
    fprintf(f, "runs %llu\nsteps %llu\nnontrivial %llu\nchecks %llu\nfaults %llu\nsimtime %.6f\nwall %.3f\n", runs, steps, nontrivial, checks, faults, simtime, now() - t0);
    for (auto& kv : counters()) fprintf(f, "c %s %llu\n", kv.first.c_str(), kv.second);
    if (rc) fprintf(f, "viol %s\n", viol.c_str());
    fclose(f);
    for (int k = 0; k < 2; ++k) {
      f = fopen((out + (k ? ".sigs" : ".hashes")).c_str(), "wb");
      std::vector<u64> v((k ? sigs : hashes).begin(), (k ? sigs : hashes).end());
      fwrite(v.data(), 8, v.size(), f);
      fclose(f);
    }
    _exit(rc);
  }
  return 3;
}
