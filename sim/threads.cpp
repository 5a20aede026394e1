// Scenario "threads": real threads call the library, one runs at a time, and the plan decides at which memory access
// of the library (or of libc on its behalf) each switch happens. Decides C13.
//
// The library and tasks.cpp are compiled with -fsanitize=thread; this file is the runtime behind that instrumentation
// (no sanitizer library is linked). It keeps vector clocks and a byte-accurate record of the last accesses, so that two
// conflicting accesses without synchronisation between them are reported whatever their order in this run, and it
// compares every result with what the same calls give alone.
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <locale.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <locale>
#include "records.hpp"
#include "tasks.hpp"

const char* scn_name = "threads";
const int scn_others = 0;
enum { SW = NTASK };
const char* scn_ops[] = {"READ", "FMT", "TICK", "READINGS", "DAT", "MONTH", "DELTA", "SHARED", "CAST", "ORDER", "NEW", "IVAL", "TYPES", "SW", nullptr};
// READ thread kind res want_stop : text | FMT thread writer res sep | TICK thread units res form | ... (see tasks.cpp)
// SW after to mode: after that many scheduling points (mode 0: every access to memory other than the thread's stack,
//                   mode 1: only accesses to the program's static data) the running thread is preempted by thread `to`

enum { MAXT = 4, MAXOP = 64, STK = 256 * 1024 };
extern "C" char __data_start, _end;

// ---------------------------------------------------------------- shared with the parent
struct Shm {
  u64 done, switches, points, races_checked, forced, hash, blocked, exits;
  char cls[32], detail[2048];
  char out[MAXOP][512];
};
static Shm* shm;

// ---------------------------------------------------------------- threads and scheduler
enum { READY, BLOCKED, DONE };
struct Thr {
  int id = 0, state = READY;
  sem_t sem;
  pthread_t th;
  unsigned vc[MAXT], pend[MAXT] = {0}, rel[MAXT] = {0};  // own clock, seen by relaxed reads, at the last release fence
  char *lo, *hi;
  const void* on = nullptr;
  int rt = 0;
  u64 points = 0;
  std::vector<std::pair<const Step*, int>> ops;
  struct AtExit { void (*f)(void*); void* o; } exits[256];  // destructors of the thread's thread-local objects
  int nexits = 0;
};
static Thr T[MAXT];
static int nT;
static thread_local Thr* me;
static sem_t finished;
struct Sw { i64 left; int to, mode; };
static std::vector<Sw> sws;
static size_t sw_at;
static u64 slice;

static void report(const char* cls, const std::string& d) {
  if (!shm->cls[0]) {
    snprintf(shm->cls, sizeof shm->cls, "%s", cls);
    snprintf(shm->detail, sizeof shm->detail, "%s", d.c_str());
  }
  _exit(7);
}
static void hand_to(Thr* t) {  // the caller keeps or has changed its own state
  Thr* self = me;
  if (t == self) return;
  shm->hash = mix(shm->hash, self->points * MAXT + (u64)t->id);
  slice = 0;
  sem_post(&t->sem);
  if (self->state == DONE) return;
  while (sem_wait(&self->sem) < 0 && errno == EINTR) {}
}
static Thr* pick(int from) {
  for (int k = 0; k < nT; ++k) { Thr* t = &T[(from + k) % nT]; if (t->state == READY) return t; }
  return nullptr;
}
static void point(bool global) {
  ++me->points;
  ++shm->points;
  if (sw_at < sws.size()) {
    Sw& w = sws[sw_at];
    if ((w.mode == 0 || global) && --w.left <= 0) {
      ++sw_at;
      Thr* t = pick(w.to);
      if (t != me) { ++shm->switches; int e = errno; hand_to(t); errno = e; }
      return;
    }
  }
  if (++slice > 40000) {  // nobody starves for ever
    slice = 0;
    ++shm->forced;
    if (shm->forced > 2000) report("no_progress", "the threads did not finish within 80 million steps of fair scheduling");
    int e = errno;
    hand_to(pick(me->id + 1));
    errno = e;
  }
}
static void block_on(const void* o) {
  me->state = BLOCKED;
  me->on = o;
  ++shm->blocked;
  Thr* t = pick(me->id + 1);
  if (!t) me->rt = 1, report("deadlock", "all threads wait for each other inside the library");
  hand_to(t);
}
static void wake(const void* o) {
  for (int i = 0; i < nT; ++i) if (T[i].state == BLOCKED && T[i].on == o) T[i].state = READY;
}

// ---------------------------------------------------------------- happens-before
struct Sync { const void* key; unsigned vc[MAXT]; int state, owner, count; };
static Sync syncs[8192];
static Sync& sync_of(const void* k) {
  size_t i = ((size_t)k >> 2) % 8192;
  while (syncs[i].key && syncs[i].key != k) i = (i + 1) % 8192;
  syncs[i].key = k;
  return syncs[i];
}
static void acquire(Sync& s) { for (int i = 0; i < MAXT; ++i) me->vc[i] = std::max(me->vc[i], s.vc[i]); }
static void release(Sync& s) { for (int i = 0; i < MAXT; ++i) s.vc[i] = std::max(me->vc[i], s.vc[i]); ++me->vc[me->id]; }

enum { RD, WR, ARD, AWR };
struct Rec { unsigned ep; unsigned pc; unsigned char mask; };
struct Cell { u64 key; Rec r[4][MAXT]; };
enum { CELLS = 1 << 17 };
static Cell* cells;  // anonymous mapping, zero filled
static Cell* cell_of(u64 key, bool make) {
  u64 i = key & (CELLS - 1);
  for (int k = 0; k < 4096; ++k, i = (i + 1) & (CELLS - 1)) {
    if (cells[i].key == key) return &cells[i];
    if (!cells[i].key) { if (!make) return nullptr; cells[i].key = key; return &cells[i]; }
  }
  return nullptr;
}
static void forget(const void* p, size_t n) {
  for (u64 k = (u64)p >> 3; k <= ((u64)p + n - 1) >> 3; ++k) { Cell* c = cell_of(k, false); if (c) memset(c->r, 0, sizeof c->r); }
}

static std::string symbol(u64 addr, bool data);
static void race(const void* a, int k1, u64 pc1, int t1, int k2, u64 pc2, int t2) {
  static const char* const KN[] = {"reads", "writes", "atomically reads", "atomically writes"};
  u64 x = (u64)a;
  bool stat = (char*)a >= &__data_start && (char*)a < &_end;
  (void)t1; (void)t2;
  std::string w = stat ? symbol(x, true) : "memory that is not static";
  std::string f1 = symbol(pc1, false), f2 = symbol(pc2, false);
  std::string m1 = f1 + " " + KN[k1], m2 = f2 + " " + KN[k2];
  report("race", "unsynchronised access to " + w + " by two threads: " + m1 + " it in one, " + m2 + " it in the other");
}
static void access(const void* a, size_t n, int kind, void* pc) {
  Thr* t = me;
  if (!t || t->rt || !n) return;
  if ((char*)a >= t->lo && (char*)a < t->hi) return;  // the thread's own stack and thread-local storage
  bool glob = (char*)a >= &__data_start && (char*)a < &_end;
  t->rt = 1;
  point(glob);
  u64 lo = (u64)a, hi = lo + n;
  if (n > 1 << 16) hi = lo + (1 << 16);
  for (u64 k = lo >> 3; k <= (hi - 1) >> 3; ++k) {
    Cell* c = cell_of(k, true);
    if (!c) continue;
    unsigned char mask = 0xff;
    if (k == lo >> 3) mask &= (unsigned char)(0xff << (lo & 7));
    if (k == (hi - 1) >> 3) mask &= (unsigned char)(0xff >> (7 - ((hi - 1) & 7)));
    ++shm->races_checked;
    for (int o = 0; o < 4; ++o) {
      bool conflict = (kind == WR || kind == AWR || o == WR || o == AWR) && !(kind >= ARD && o >= ARD);
      if (!conflict) continue;
      for (int u = 0; u < nT; ++u) if (u != t->id && (c->r[o][u].mask & mask) && c->r[o][u].ep > t->vc[u]) race((void*)(k == lo >> 3 ? lo : k << 3), kind, (u64)pc, t->id, o, c->r[o][u].pc, u);
    }
    Rec& r = c->r[kind][t->id];
    if (r.ep == t->vc[t->id]) r.mask |= mask; else { r.ep = t->vc[t->id]; r.mask = mask; }
    r.pc = (unsigned)(u64)pc;
  }
  t->rt = 0;
}

// ---------------------------------------------------------------- names of addresses
static std::vector<std::pair<u64, std::pair<u64, std::string>>> symtab;
static void load_symbols() {
  int fd = open("/proc/self/exe", O_RDONLY);
  struct stat st;
  fstat(fd, &st);
  char* b = (char*)mmap(nullptr, (size_t)st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
  close(fd);
  Elf64_Ehdr* h = (Elf64_Ehdr*)b;
  Elf64_Shdr* s = (Elf64_Shdr*)(b + h->e_shoff);
  for (int i = 0; i < h->e_shnum; ++i) if (s[i].sh_type == SHT_SYMTAB) {
    Elf64_Sym* y = (Elf64_Sym*)(b + s[i].sh_offset);
    const char* str = b + s[s[i].sh_link].sh_offset;
    for (size_t k = 0; k < s[i].sh_size / sizeof *y; ++k) if (y[k].st_value && (ELF64_ST_TYPE(y[k].st_info) == STT_OBJECT || ELF64_ST_TYPE(y[k].st_info) == STT_FUNC)) symtab.push_back({y[k].st_value, {y[k].st_size, str + y[k].st_name}});
  }
  std::sort(symtab.begin(), symtab.end());
}
static std::string symbol(u64 addr, bool data) {
  if (symtab.empty()) load_symbols();
  for (auto& s : symtab) if (addr >= s.first && addr < s.first + std::max<u64>(s.second.first, 1)) {
    int st = 0;
    char* d = abi::__cxa_demangle(s.second.second.c_str(), nullptr, nullptr, &st);
    std::string n = st == 0 && d ? d : s.second.second;
    free(d);
    if (n.size() > 160) n = n.substr(0, 160) + "...";
    return n + (data && addr > s.first ? "+" + std::to_string(addr - s.first) : "");
  }
  return data ? "static data" : "a runtime function";
}

// ---------------------------------------------------------------- instrumentation interface
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(N)                                                                                       \
  void __tsan_read##N(void* a) { access(a, N, RD, PC); }                                             \
  void __tsan_write##N(void* a) { access(a, N, WR, PC); }                                            \
  void __tsan_unaligned_read##N(void* a) { access(a, N, RD, PC); }                                   \
  void __tsan_unaligned_write##N(void* a) { access(a, N, WR, PC); }                                  \
  void __tsan_volatile_read##N(void* a) { access(a, N, RD, PC); }                                    \
  void __tsan_volatile_write##N(void* a) { access(a, N, WR, PC); }                                   \
  void __tsan_unaligned_volatile_read##N(void* a) { access(a, N, RD, PC); }                          \
  void __tsan_unaligned_volatile_write##N(void* a) { access(a, N, WR, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* a, unsigned long n) { access(a, n, RD, PC); }
void __tsan_write_range(void* a, unsigned long n) { access(a, n, WR, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access(a, 8, WR, PC); }
void __tsan_vptr_read(void** a) { access(a, 8, RD, PC); }

// Atomic operations synchronise as far as their memory order says; values are sequentially consistent.
enum { RLX, CONSUME, ACQ, REL, ACQREL, SEQ };  // __ATOMIC_*
enum { LOAD, STORE, RMW };
static void join(unsigned* d, const unsigned* s) { for (int i = 0; i < MAXT; ++i) d[i] = std::max(d[i], s[i]); }
static void sync_atomic(const void* a, size_t n, int kind, int mo) {
  mo &= 7;
  Thr* t = me;
  Sync& s = sync_of(a);
  if (kind != STORE) {
    unsigned* into = mo == RLX || mo == REL ? t->pend : t->vc;
    join(into, s.vc);
    if (n == 8) join(into, sync_of((const char*)a + 4).vc);  // two counters looked at together
  }
  if (kind != LOAD) {
    if (mo == REL || mo == ACQREL || mo == SEQ) {
      if (kind == STORE) memcpy(s.vc, t->vc, sizeof s.vc);
      else join(s.vc, t->vc);
      ++t->vc[t->id];
    } else join(s.vc, t->rel);
  }
}
struct At {  // switch point and race check before the operation, synchronisation after it
  const void* a; size_t n; int kind, mo; bool on;
  At(const volatile void* a_, size_t n_, int k, int m, void* pc) : a((const void*)a_), n(n_), kind(k), mo(m), on(me && !me->rt) { if (on) access(a, n, k == LOAD ? ARD : AWR, pc); }
  ~At() { if (on) sync_atomic(a, n, kind, mo); }
};
#define OP(K, MO) At at__(a, sizeof *a, K, MO, PC)
#define SC __ATOMIC_SEQ_CST
#define FOP(B, TY, NAME) TY __tsan_atomic##B##_##NAME(volatile TY* a, TY v, int mo) { OP(RMW, mo); return __atomic_##NAME(a, v, SC); }
#define CAS(B, TY, NAME) int __tsan_atomic##B##_##NAME(volatile TY* a, TY* e, TY v, int mo, int fmo) { OP(RMW, mo); bool ok = __atomic_compare_exchange_n(a, e, v, 0, SC, SC); if (!ok) { at__.kind = LOAD; at__.mo = fmo; } return ok; }
#define ATOM(B, TY)                                                                                                                \
  TY __tsan_atomic##B##_load(const volatile TY* a, int mo) { OP(LOAD, mo); return __atomic_load_n(a, SC); }                        \
  void __tsan_atomic##B##_store(volatile TY* a, TY v, int mo) { OP(STORE, mo); __atomic_store_n(a, v, SC); }                       \
  TY __tsan_atomic##B##_exchange(volatile TY* a, TY v, int mo) { OP(RMW, mo); return __atomic_exchange_n(a, v, SC); }              \
  FOP(B, TY, fetch_add) FOP(B, TY, fetch_sub) FOP(B, TY, fetch_and) FOP(B, TY, fetch_or) FOP(B, TY, fetch_xor) FOP(B, TY, fetch_nand) \
  CAS(B, TY, compare_exchange_strong) CAS(B, TY, compare_exchange_weak)                                                            \
  TY __tsan_atomic##B##_compare_exchange_val(volatile TY* a, TY e, TY v, int mo, int fmo) { OP(RMW, mo); if (!__atomic_compare_exchange_n(a, &e, v, 0, SC, SC)) { at__.kind = LOAD; at__.mo = fmo; } return e; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) {
  if (!me || me->rt) return;
  if (mo != REL && mo != RLX) join(me->vc, me->pend);
  if (mo == REL || mo == ACQREL || mo == SEQ) { memcpy(me->rel, me->vc, sizeof me->rel); ++me->vc[me->id]; }
}
void __tsan_atomic_signal_fence(int) {}

// ---- libc on behalf of the library (references from the program are redirected here by the linker) ----
#define RL(R, NAME, ARGS) R __real_##NAME ARGS
RL(void*, memcpy, (void*, const void*, size_t));
RL(void*, memmove, (void*, const void*, size_t));
RL(void*, memset, (void*, int, size_t));
RL(int, memcmp, (const void*, const void*, size_t));
RL(void*, memchr, (const void*, int, size_t));
RL(size_t, strlen, (const char*));
RL(int, strcmp, (const char*, const char*));
RL(int, strncmp, (const char*, const char*, size_t));
RL(int, strcasecmp, (const char*, const char*));
RL(int, strncasecmp, (const char*, const char*, size_t));
RL(char*, strcpy, (char*, const char*));
RL(char*, strncpy, (char*, const char*, size_t));
RL(char*, strcat, (char*, const char*));
RL(char*, strchr, (const char*, int));
RL(char*, strstr, (const char*, const char*));
RL(size_t, strspn, (const char*, const char*));
RL(size_t, strcspn, (const char*, const char*));
RL(long, strtol, (const char*, char**, int));
RL(long long, strtoll, (const char*, char**, int));
RL(unsigned long, strtoul, (const char*, char**, int));
RL(long, __isoc23_strtol, (const char*, char**, int));
RL(long long, __isoc23_strtoll, (const char*, char**, int));
RL(unsigned long, __isoc23_strtoul, (const char*, char**, int));
RL(int, vsnprintf, (char*, size_t, const char*, va_list));
RL(int, vsprintf, (char*, const char*, va_list));
RL(double, strtod, (const char*, char**));
RL(float, strtof, (const char*, char**));
RL(int, atoi, (const char*));
RL(double, atof, (const char*));
RL(char*, strtok, (char*, const char*));
RL(struct tm*, localtime, (const time_t*));
RL(struct tm*, gmtime, (const time_t*));
RL(char*, asctime, (const struct tm*));
RL(char*, ctime, (const time_t*));
RL(char*, strerror, (int));
RL(char*, setlocale, (int, const char*));
RL(void*, _ZNSt6locale6globalERKS_, (void*, const void*));
RL(int, rand, (void));
RL(void, free, (void*));
RL(void*, malloc, (size_t));
RL(void*, calloc, (size_t, size_t));
RL(void*, realloc, (void*, size_t));
RL(void*, __cxa_allocate_exception, (size_t));
RL(int, __cxa_guard_acquire, (char*));
RL(void, __cxa_guard_release, (char*));
RL(void, __cxa_guard_abort, (char*));
RL(int, pthread_mutex_lock, (pthread_mutex_t*));
RL(int, pthread_mutex_trylock, (pthread_mutex_t*));
RL(int, pthread_mutex_unlock, (pthread_mutex_t*));
RL(int, pthread_rwlock_rdlock, (pthread_rwlock_t*));
RL(int, pthread_rwlock_wrlock, (pthread_rwlock_t*));
RL(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t*));
RL(int, pthread_rwlock_trywrlock, (pthread_rwlock_t*));
RL(int, pthread_rwlock_unlock, (pthread_rwlock_t*));
RL(int, pthread_once, (pthread_once_t*, void (*)(void)));

static size_t len(const char* s) { return __real_strlen(s); }
#define R_(p, n) access(p, n, RD, PC)
#define W_(p, n) access(p, n, WR, PC)
void* __wrap_memcpy(void* d, const void* s, size_t n) { R_(s, n); W_(d, n); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { R_(s, n); W_(d, n); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { W_(d, n); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { R_(a, n); R_(b, n); return __real_memcmp(a, b, n); }
void* __wrap_memchr(const void* a, int c, size_t n) { void* r = __real_memchr(a, c, n); R_(a, r ? (size_t)((char*)r - (char*)a) + 1 : n); return r; }
size_t __wrap_strlen(const char* a) { size_t n = len(a); R_(a, n + 1); return n; }
int __wrap_strcmp(const char* a, const char* b) { R_(a, len(a) + 1); R_(b, len(b) + 1); return __real_strcmp(a, b); }
int __wrap_strncmp(const char* a, const char* b, size_t n) { R_(a, strnlen(a, n)); R_(b, strnlen(b, n)); return __real_strncmp(a, b, n); }
int __wrap_strcasecmp(const char* a, const char* b) { R_(a, len(a) + 1); R_(b, len(b) + 1); return __real_strcasecmp(a, b); }
int __wrap_strncasecmp(const char* a, const char* b, size_t n) { R_(a, strnlen(a, n)); R_(b, strnlen(b, n)); return __real_strncasecmp(a, b, n); }
char* __wrap_strcpy(char* d, const char* s) { size_t n = len(s) + 1; R_(s, n); W_(d, n); return __real_strcpy(d, s); }
char* __wrap_strncpy(char* d, const char* s, size_t n) { R_(s, strnlen(s, n)); W_(d, n); return __real_strncpy(d, s, n); }
char* __wrap_strcat(char* d, const char* s) { size_t n = len(s) + 1; R_(s, n); W_(d + len(d), n); return __real_strcat(d, s); }
char* __wrap_strchr(const char* a, int c) { R_(a, len(a) + 1); return __real_strchr(a, c); }
char* __wrap_strstr(const char* a, const char* b) { R_(a, len(a) + 1); R_(b, len(b) + 1); return __real_strstr(a, b); }
size_t __wrap_strspn(const char* a, const char* b) { size_t n = __real_strspn(a, b); R_(a, n + 1); return n; }
size_t __wrap_strcspn(const char* a, const char* b) { size_t n = __real_strcspn(a, b); R_(a, n + 1); return n; }
long __wrap_strtol(const char* a, char** e, int b) { char* x; long r = __real_strtol(a, &x, b); int er = errno; R_(a, (size_t)(x - a) + 1); if (e) { W_(e, 8); *e = x; } errno = er; return r; }
long __wrap___isoc23_strtol(const char* a, char** e, int b) { char* x; long r = __real___isoc23_strtol(a, &x, b); int er = errno; R_(a, (size_t)(x - a) + 1); if (e) { W_(e, 8); *e = x; } errno = er; return r; }
long long __wrap_strtoll(const char* a, char** e, int b) { char* x; long long r = __real_strtoll(a, &x, b); int er = errno; R_(a, (size_t)(x - a) + 1); if (e) { W_(e, 8); *e = x; } errno = er; return r; }
long long __wrap___isoc23_strtoll(const char* a, char** e, int b) { char* x; long long r = __real___isoc23_strtoll(a, &x, b); int er = errno; R_(a, (size_t)(x - a) + 1); if (e) { W_(e, 8); *e = x; } errno = er; return r; }
unsigned long __wrap_strtoul(const char* a, char** e, int b) { char* x; unsigned long r = __real_strtoul(a, &x, b); int er = errno; R_(a, (size_t)(x - a) + 1); if (e) { W_(e, 8); *e = x; } errno = er; return r; }
unsigned long __wrap___isoc23_strtoul(const char* a, char** e, int b) { char* x; unsigned long r = __real___isoc23_strtoul(a, &x, b); int er = errno; R_(a, (size_t)(x - a) + 1); if (e) { W_(e, 8); *e = x; } errno = er; return r; }
double __wrap_strtod(const char* a, char** e) { char* x; double r = __real_strtod(a, &x); int er = errno; R_(a, (size_t)(x - a) + 1); if (e) { W_(e, 8); *e = x; } errno = er; return r; }
float __wrap_strtof(const char* a, char** e) { char* x; float r = __real_strtof(a, &x); int er = errno; R_(a, (size_t)(x - a) + 1); if (e) { W_(e, 8); *e = x; } errno = er; return r; }
int __wrap_atoi(const char* a) { R_(a, len(a) + 1); return __real_atoi(a); }
double __wrap_atof(const char* a) { R_(a, len(a) + 1); return __real_atof(a); }
int __wrap_vsnprintf(char* d, size_t n, const char* f, va_list ap) { int r = __real_vsnprintf(d, n, f, ap); if (d && n && r >= 0) W_(d, (size_t)r + 1 < n ? (size_t)r + 1 : n); return r; }
int __wrap_vsprintf(char* d, const char* f, va_list ap) { int r = __real_vsprintf(d, f, ap); if (r >= 0) W_(d, (size_t)r + 1); return r; }
int __wrap_snprintf(char* d, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vsnprintf(d, n, f, ap); va_end(ap); return r; }
int __wrap_sprintf(char* d, const char* f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vsprintf(d, f, ap); va_end(ap); return r; }
// functions with hidden static state: the state is one object that each call writes
char hidden_state_of_strtok[8], hidden_state_of_libc_time_functions[8], hidden_state_of_strerror[8], process_wide_locale[8], hidden_state_of_rand[8];
char* __wrap_strtok(char* a, const char* b) { W_(hidden_state_of_strtok, 8); char* r = __real_strtok(a, b); W_(hidden_state_of_strtok, 8); return r; }
struct tm* __wrap_localtime(const time_t* t) { W_(hidden_state_of_libc_time_functions, 8); return __real_localtime(t); }
struct tm* __wrap_gmtime(const time_t* t) { W_(hidden_state_of_libc_time_functions, 8); return __real_gmtime(t); }
char* __wrap_asctime(const struct tm* t) { W_(hidden_state_of_libc_time_functions, 8); return __real_asctime(t); }
char* __wrap_ctime(const time_t* t) { W_(hidden_state_of_libc_time_functions, 8); return __real_ctime(t); }
char* __wrap_strerror(int e) { W_(hidden_state_of_strerror, 8); return __real_strerror(e); }
char* __wrap_setlocale(int c, const char* l) { access(process_wide_locale, 8, l ? WR : RD, PC); char* r = __real_setlocale(c, l); if (me) access(process_wide_locale, 8, l ? WR : RD, PC); return r; }
void* __wrap__ZNSt6locale6globalERKS_(void* r, const void* l) { W_(process_wide_locale, 8); void* x = __real__ZNSt6locale6globalERKS_(r, l); W_(process_wide_locale, 8); return x; }
int __wrap_rand() { W_(hidden_state_of_rand, 8); return __real_rand(); }
// memory that changes hands carries no history
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (me && p && !me->rt) { me->rt = 1; forget(p, malloc_usable_size(p)); me->rt = 0; } return p; }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); if (me && p && !me->rt) { me->rt = 1; forget(p, malloc_usable_size(p)); me->rt = 0; } return p; }
void __wrap_free(void* p) { if (me && p && !me->rt) { access(p, malloc_usable_size(p), WR, PC); me->rt = 1; forget(p, malloc_usable_size(p)); me->rt = 0; } __real_free(p); }
void* __wrap_realloc(void* q, size_t n) { if (me && q && !me->rt) { access(q, malloc_usable_size(q), WR, PC); me->rt = 1; forget(q, malloc_usable_size(q)); me->rt = 0; } void* p = __real_realloc(q, n); if (me && p) { me->rt = 1; forget(p, malloc_usable_size(p)); me->rt = 0; } return p; }
void* __wrap___cxa_allocate_exception(size_t n) { void* p = __real___cxa_allocate_exception(n); if (me && p) { me->rt = 1; forget((char*)p - 128, n + 128); me->rt = 0; } return p; }
// initialisation of function-local statics, mutexes, once: same meaning, but waiting gives way to the other threads
int __wrap___cxa_guard_acquire(char* g) {
  if (!me) return __real___cxa_guard_acquire(g);
  for (;;) {
    me->rt = 1;
    point(true);
    me->rt = 0;
    Sync& s = sync_of(g);
    acquire(s);
    if (*g) return 0;
    if (!s.state) { s.state = 1; s.owner = me->id; return 1; }
    if (s.owner == me->id) me->rt = 1, report("deadlock", "recursive initialisation of a local static");
    block_on(g);
  }
}
void __wrap___cxa_guard_release(char* g) {
  if (!me) { __real___cxa_guard_release(g); return; }
  Sync& s = sync_of(g);
  *g = 1;
  s.state = 0;
  release(s);
  wake(g);
}
void __wrap___cxa_guard_abort(char* g) {
  if (!me) { __real___cxa_guard_abort(g); return; }
  Sync& s = sync_of(g);
  s.state = 0;
  release(s);
  wake(g);
}
static int lock(void* m, bool shared, bool tr) {  // owner+1 in state for exclusive, -n for n readers
  for (;;) {
    me->rt = 1;
    point(true);
    me->rt = 0;
    Sync& s = sync_of(m);
    if (s.state == 0 || (shared && s.state < 0)) { s.state = shared ? s.state - 1 : me->id + 1; s.count = 1; acquire(s); return 0; }
    if (!shared && s.state == me->id + 1 && s.count && ((pthread_mutex_t*)m)->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { ++s.count; return 0; }
    if (tr) return EBUSY;
    block_on(m);
  }
}
static int unlock(void* m) {
  Sync& s = sync_of(m);
  if (s.state > 0) { if (--s.count == 0) s.state = 0; } else if (s.state < 0) ++s.state;
  release(s);
  wake(m);
  return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return me ? lock(m, false, false) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return me ? lock(m, false, true) : __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return me ? unlock(m) : __real_pthread_mutex_unlock(m); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return me ? lock(m, true, false) : __real_pthread_rwlock_rdlock(m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return me ? lock(m, false, false) : __real_pthread_rwlock_wrlock(m); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return me ? lock(m, true, true) : __real_pthread_rwlock_tryrdlock(m); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return me ? lock(m, false, true) : __real_pthread_rwlock_trywrlock(m); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { return me ? unlock(m) : __real_pthread_rwlock_unlock(m); }
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) {
  if (!me) return __real_pthread_once(o, f);
  for (;;) {
    me->rt = 1;
    point(true);
    me->rt = 0;
    Sync& s = sync_of(o);
    if (s.state == 2) { acquire(s); return 0; }
    if (s.state == 0) {
      s.state = 1;
      acquire(s);
      try { f(); } catch (...) { s.state = 0; wake(o); throw; }
      s.state = 2;
      release(s);
      wake(o);
      return 0;
    }
    block_on(o);
  }
}
// what a thread-local object does when its thread ends is the library's doing like the rest: it runs under the scheduler
int __cxa_thread_atexit_impl(void (*f)(void*), void* o, void* d) {
  static auto real = (int (*)(void (*)(void*), void*, void*))dlsym(RTLD_NEXT, "__cxa_thread_atexit_impl");
  if (!me || me->nexits >= (int)(sizeof me->exits / sizeof me->exits[0])) return real(f, o, d);
  me->exits[me->nexits++] = {f, o};
  return 0;
}
}  // extern "C"
void* operator new(size_t n) { void* p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }

// ---------------------------------------------------------------- runs
void scn_init() {
  shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  cells = (Cell*)mmap(nullptr, sizeof(Cell) * CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  load_symbols();
  // libstdc++ fills these per-character caches of the classic locale on first use, without a lock, always with the
  // same values; that is its business and not the library's
  auto& ct = std::use_facet<std::ctype<char>>(std::locale::classic());
  for (int i = 0; i < 256; ++i) { (void)ct.widen((char)i); (void)ct.narrow((char)i, 0); (void)ct.narrow((char)i, 1); }
  char buf[512];
  (void)ct.widen(buf, buf + 256, buf + 256);
  (void)ct.narrow(buf, buf + 256, 0, buf + 256);
}

static void* thread_main(void* p) {
  Thr* t = (Thr*)p;
  while (sem_wait(&t->sem) < 0 && errno == EINTR) {}
  for (auto& o : t->ops) {
    i64 a[6];
    for (int i = 0; i < 6; ++i) a[i] = o.first->a[i];
    a[0] = t->id;
    errno = 0;
    me = t;
    task_run(o.first->op, a, o.first->s.c_str(), shm->out[o.second]);
    me = nullptr;
  }
  me = t;
  while (t->nexits) {
    auto& e = t->exits[--t->nexits];
    ++shm->exits;
    e.f(e.o);
  }
  t->state = DONE;
  Thr* n = pick(t->id + 1);
  if (n) hand_to(n);
  else {
    for (int i = 0; i < nT; ++i) if (T[i].state == BLOCKED) report("deadlock", "a thread waits for ever inside the library");
    sem_post(&finished);
  }
  me = nullptr;
  return nullptr;
}

static void begin(const Plan& p) {
  task_setup();
  Rng r(p.seed ^ 0x5bd1e995);
  for (int i = 0; i < MAXT; ++i) {
    static const i64 mj[] = {51544, 57753, 59945, 41317};
    i64 m = r.chance(1, 4) ? r.range(-400000, 2000000) : mj[r.below(4)] + r.range(-2, 2);
    task_begin(i, m, r.chance(1, 3) ? 86399999999LL : r.range(0, 86399999999LL));
  }
}
static void child(const Plan& p, bool alone) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  begin(p);
  std::vector<const Step*> ops;
  for (auto& s : p.steps) if (s.op < SW && (int)ops.size() < MAXOP) ops.push_back(&s);
  if (alone) {
    for (size_t i = 0; i < ops.size(); ++i) {
      i64 a[6];
      for (int k = 0; k < 6; ++k) a[k] = ops[i]->a[k];
      a[0] = fmod_(a[0], MAXT);
      errno = 0;
      task_run(ops[i]->op, a, ops[i]->s.c_str(), shm->out[i]);
    }
    shm->done = 1;
    _exit(0);
  }
  nT = MAXT;
  for (size_t i = 0; i < ops.size(); ++i) T[fmod_(ops[i]->a[0], MAXT)].ops.push_back({ops[i], (int)i});
  for (auto& s : p.steps) if (s.op == SW) sws.push_back({s.a[0] < 1 ? 1 : s.a[0], (int)fmod_(s.a[1], MAXT), (int)(s.a[2] & 1)});
  char* stacks = (char*)mmap(nullptr, (size_t)STK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  sem_init(&finished, 0, 0);
  int first = -1;
  for (int i = 0; i < nT; ++i) {
    Thr& t = T[i];
    t.id = i;
    for (int k = 0; k < MAXT; ++k) t.vc[k] = 0;
    t.vc[i] = 1;
    sem_init(&t.sem, 0, 0);
    t.lo = stacks + (size_t)STK * (size_t)i;
    t.hi = t.lo + STK;
    if (t.ops.empty()) { t.state = DONE; continue; }
    if (first < 0) first = i;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, t.lo, STK);
    if (pthread_create(&t.th, &at, thread_main, &t)) _exit(8);
  }
  if (first >= 0) {
    sem_post(&T[first].sem);
    while (sem_wait(&finished) < 0 && errno == EINTR) {}
  }
  shm->done = 1;
  _exit(0);
}
static void spawn(Ctx& c, bool alone) {
  memset(shm, 0, offsetof(Shm, out));
  for (int i = 0; i < MAXOP; ++i) shm->out[i][0] = 0;
  pid_t pid = fork();
  if (!pid) child(c.plan, alone);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (shm->cls[0]) return;
  if (!shm->done) c.fail("crashed", std::string("the process died (") + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "status " + std::to_string(WEXITSTATUS(st))) + (alone ? ") running the calls one after the other" : ") running the threads"));
}

void scn_exec(Ctx& c) {
  std::vector<const Step*> ops;
  for (auto& s : c.plan.steps) if (s.op < SW && ops.size() < MAXOP) ops.push_back(&s);
  if (ops.empty()) return;
  std::vector<std::string> alone;
  spawn(c, true);
  for (size_t i = 0; i < ops.size(); ++i) alone.push_back(shm->out[i]);
  spawn(c, false);
  c.obs(shm->hash);
  c.obs(shm->points);
  c.sig(shm->hash);
  c.faults += shm->switches;
  cnt("fault.preempted_inside_a_call", shm->switches);
  cnt("fault.thread_stalled_while_others_ran", shm->forced);
  cnt("scheduling_points", shm->points);
  cnt("accesses_checked_for_races", shm->races_checked);
  if (shm->exits) cnt("thread_local_objects_destroyed", shm->exits);
  if (shm->blocked) cnt("waits_for_another_thread", shm->blocked);
  ++c.checks;
  if (shm->cls[0]) c.fail(shm->cls, shm->detail);
  for (size_t i = 0; i < ops.size(); ++i) {
    const Step& s = *ops[i];
    c.obs(std::string(shm->out[i]));
    c.check(alone[i] == shm->out[i], "result_differs", std::string(TASK_NAME[s.op]) + " (" + std::to_string(s.a[1]) + ", " + std::to_string(s.a[2]) + ", " + std::to_string(s.a[3]) + ") " + shown(s.s) + " in thread " + std::to_string(fmod_(s.a[0], MAXT)) + " gives " + shown(shm->out[i]) + " with other threads running, alone " + shown(alone[i]));
    cnt(std::string("calls.") + TASK_NAME[s.op]);
  }
}

Plan scn_gen(const std::string& prop, u64 seed) {
  Plan p;
  p.prop = prop;
  p.seed = seed;
  Rng r(seed);
  auto add = [&](int op, std::initializer_list<i64> a, const std::string& t = "") {
    Step s;
    s.op = op;
    int i = 0;
    for (i64 v : a) s.a[i++] = v;
    s.s = t;
    p.steps.push_back(s);
  };
  int nt = (int)r.range(2, 4), nops = (int)r.range(2, 24);
  int same = r.chance(1, 2) ? (int)r.below(NTASK) : -1;  // the same call everywhere, or a mix
  unsigned mask = (unsigned)r.next() | 1u << r.below(NTASK);
  static const char seps[] = "-/.:_";
  for (int i = 0; i < nops; ++i) {
    int th = i < nt ? i : (int)r.below((u64)nt), op = same >= 0 && r.chance(4, 5) ? same : (int)r.below(NTASK);
    if (same < 0) for (int k = 0; k < 20 && !((mask >> op) & 1); ++k) op = (int)r.below(NTASK);
    i64 res = (i64)r.below(3);
    switch (op) {
      case T_READ: {
        int kind = (int)r.below(5);
        Style st = rnd_style(r);
        if (kind == K_YOD_HMS) st = yod_style(st);
        std::string t = render(kind, rnd_fields(r), st);
        if (r.chance(1, 5)) t.resize(r.below(t.size() + 1));
        if (r.chance(1, 10)) t = "2015-13-40 x";
        add(T_READ, {th, kind, res, (i64)r.below(2) + (r.chance(1, 4) ? 2 * r.range(1, 3) : 0)}, t);
        break;
      }
      case T_FMT: add(T_FMT, {th, (i64)r.below(3), res, r.chance(1, 3) ? 0 : (i64)seps[r.below(sizeof seps - 1)]}); break;
      case T_TICK: add(T_TICK, {th, r.chance(1, 2) ? r.range(0, 3) : r.logmag(38), res, (i64)r.below(12)}); break;
      case T_MONTH: {
        std::string n = M_LONG[r.below(12)];
        if (r.chance(1, 2)) n = n.substr(0, 3);
        if (r.chance(1, 6)) n[r.below(n.size())] = 'x';
        add(T_MONTH, {th}, mcased(n, (int)r.below(36)));
        break;
      }
      default: add(op, {th, r.range(0, 1000000), res, r.range(0, 1000)});
    }
  }
  int nsw = r.chance(1, 4) ? (int)r.range(0, 3) : (int)r.range(4, 60);
  int style = (int)r.below(4);
  for (int i = 0; i < nsw; ++i) {
    i64 n = style == 0 ? r.range(1, 10) : style == 1 ? 1 + r.logmag(11) : style == 2 ? r.range(1, 3) : 1 + r.logmag(7);
    add(SW, {n, (i64)r.below((u64)nt), style == 2 ? 1 : (i64)r.chance(1, 4)});
  }
  return p;
}
