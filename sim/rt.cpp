// Simulator runtime. Not instrumented. It owns every source of nondeterminism the library can meet inside
// one process: who runs (threads parked and released one at a time), the allocator and its failures, memory
// contents, lazy-initialisation guards and locks, clocks, and the GMP/MPFR global environment.
#include "rt.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <ctime>
#include <cerrno>
#include <new>
#include <exception>
#include <vector>
#include <map>
#include <unordered_map>
#include <typeinfo>
#include <cxxabi.h>
#include <pthread.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/resource.h>
#include <linux/futex.h>

namespace rt
{
Config cfg;

// Containers of the runtime itself use malloc, never the simulated allocator.
template<class T> struct MA
{
  typedef T value_type;
  MA() {}
  template<class U> MA(const MA<U>&) {}
  T* allocate(size_t n) { void* p = ::malloc(n * sizeof(T)); if(!p) _exit(99); return static_cast<T*>(p); }
  void deallocate(T* p, size_t) { ::free(p); }
  template<class U> bool operator==(const MA<U>&) const { return true; }
  template<class U> bool operator!=(const MA<U>&) const { return false; }
};
template<class T> using vec = std::vector<T, MA<T>>;
template<class K, class V> using hmap = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, MA<std::pair<const K, V>>>;

// ------------------------------------------------------------------ output
static char*  obuf; static size_t olen, ocap;
static unsigned long long rhash = 1469598103934665603ULL;

static void hash_bytes(const void* p, size_t n)
{
  const unsigned char* c = (const unsigned char*) p;
  for(size_t i = 0; i < n; ++i) { rhash ^= c[i]; rhash *= 1099511628211ULL; }
}

static void ogrow(size_t n)
{
  if(olen + n + 1 > ocap) { ocap = (olen + n + 1) * 2 + 65536; obuf = (char*) ::realloc(obuf, ocap); if(!obuf) _exit(98); }
}

void out_raw(const char* p, size_t n) { ogrow(n); memcpy(obuf + olen, p, n); olen += n; }
void out_hash(const char* p, size_t n) { hash_bytes(p, n); }

static void vout(const char* fmt, va_list ap)
{
  va_list ap2; va_copy(ap2, ap);
  int n = vsnprintf(nullptr, 0, fmt, ap2); va_end(ap2);
  ogrow((size_t) n + 1); vsnprintf(obuf + olen, (size_t) n + 1, fmt, ap); olen += (size_t) n;
}
void out(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vout(fmt, ap); va_end(ap); }

static void write_all()
{
  size_t o = 0;
  while(o < olen) { ssize_t w = ::write(1, obuf + o, olen - o); if(w < 0) { if(errno == EINTR) continue; break; } o += (size_t) w; }
  olen = 0;
}
static void print_tail();
void flush_and_exit(int code) { print_tail(); write_all(); _exit(code); }

// ------------------------------------------------------------------ random
struct Rng
{
  unsigned long long s;
  unsigned long long next() { unsigned long long z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
  double uni() { return (double) (next() >> 11) * (1.0 / 9007199254740992.0); }
  unsigned below(unsigned n) { return (unsigned) (next() % n); }
};
static Rng rng;

// ------------------------------------------------------------------ threads
enum St { S_NONE, S_READY, S_BLOCKED, S_DONE };
struct VC { unsigned c[MAXT]; };
struct Thr
{
  int tid, as; St st; uintptr_t stk_lo; size_t stk_sz; uintptr_t stk_top, stk_min; // stack pointer at the start of the operation, lowest seen in it
  int quiet; bool in_op; int op;
  long allocs, fired, mpcalls, levents, full; long long opsteps0;
  long long pp;          // preemption points passed (defines replay positions)
  long long next_pp;     // voluntary preemption due at this point
  long long steps;
  long forced; unsigned long syncs;
  VC vc; const void* blocked_on; int futex;
  void (*fn)(void*); void* arg; pthread_t th;
  long long tcpu;
  const Fault* f; const EnvFault* e;
  size_t rep_i;          // replay cursor
};
static Thr  thr[MAXT];
static int  nthr = 0, running = -1, live_mt = 0;
static __thread Thr* cur __attribute__((tls_model("initial-exec")));
static long long total_steps, budget;
static bool finished_ok;

int cur_tid() { return cur ? cur->tid : -1; }

Quiet::Quiet()  { if(cur) ++cur->quiet; }
Quiet::~Quiet() { if(cur) --cur->quiet; }

// plan
// made before the server starts; a simulated process then runs the static initialisation of everything else (core.cpp)
#define EARLY __attribute__((init_priority(101)))
static vec<Fault> faults EARLY; static vec<EnvFault> envs EARLY; static vec<Switch> given[MAXT] EARLY; static vec<Switch> taken EARLY;
void add_fault (const Fault& f)    { faults.push_back(f); }
void add_env   (const EnvFault& f) { envs.push_back(f); }
void add_switch(const Switch& s)   { given[s.tid].push_back(s); }

// statistics
static unsigned long long st_pre, st_forced, st_guards, st_guard_waits, st_mtx, st_mtx_waits, st_atom, st_alloc, st_fail, st_race_checks, st_env, st_mp, st_acc, st_stat_acc, st_clock, st_recycled;
static int n_viol;

void violation(const char* cls, const char* fmt, ...)
{
  if(cur) ++cur->quiet;
  ++n_viol;
  if(n_viol <= 20)
  {
    out("V %s tid=%d op=%d ", cls, cur ? cur->as : -1, cur ? cur->op : -1);
    va_list ap; va_start(ap, fmt); vout(fmt, ap); va_end(ap);
    out("\n");
  }
  hash_bytes(cls, strlen(cls));
  if(cur) --cur->quiet;
}
static void fatal_violation(const char* cls, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
static void fatal_violation(const char* cls, const char* fmt, ...)
{
  if(olen && obuf[olen - 1] != '\n') out("\n");
  out("V %s tid=%d op=%d ", cls, cur ? cur->as : -1, cur ? cur->op : -1);
  va_list ap; va_start(ap, fmt); vout(fmt, ap); va_end(ap);
  out("\n"); ++n_viol;
  hash_bytes(cls, strlen(cls));
  flush_and_exit(0);
}

// ------------------------------------------------------------------ arena allocator
static const uintptr_t ARENA = 0x100000000000ULL; static const size_t ARENA_SZ = 1ULL << 28;
static const uintptr_t ASH   = 0x110000000000ULL;  // allocation state, 1 byte per 8 bytes
static const uintptr_t RSH   = 0x120000000000ULL;  // race cells, 32 bytes per 4 bytes
static const uintptr_t SSH   = 0x140000000000ULL;  // race cells of static storage, 32 bytes per byte
static const uintptr_t STK   = 0x150000000000ULL;  // thread stacks
static const size_t    STK_SZ = 16ULL << 20;

static uintptr_t data_lo, data_hi;
extern "C" char __data_start, _end;

struct Hdr { unsigned size; unsigned cap; unsigned short flags; unsigned short op; unsigned seq; }; // 16 bytes
enum { F_LIVE = 1, F_HARNESS = 2, F_MP = 4, F_ARR = 8, F_MARK = 16 };
static uintptr_t brk_; static unsigned aseq;
static hmap<size_t, vec<uintptr_t>>* freel;
static vec<uintptr_t>* quarq; static size_t quar_i;
static unsigned long long nlive, nheld, nheld_mp; // blocks; bytes the library holds, and those GMP allocated for it

struct Cell { unsigned w, wpc; unsigned r[MAXT]; unsigned rpc; };
static inline Cell* cell_arena(uintptr_t a) { return (Cell*) (RSH + ((a - ARENA) >> 2) * sizeof(Cell)); }
static inline Cell* cell_static(uintptr_t a) { return (Cell*) (SSH + (a - data_lo) * sizeof(Cell)); }

static void map_at(uintptr_t a, size_t n)
{
  void* p = mmap((void*) a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if(p != (void*) a) { static const char m[] = "sim: cannot map the simulated memory\n"; (void) !write(2, m, sizeof m - 1); _exit(97); }
}

static bool arena_up;
static void arena_init()
{
  if(arena_up) return;
  arena_up = true;
  map_at(ARENA, ARENA_SZ); map_at(ASH, ARENA_SZ >> 3); map_at(RSH, (ARENA_SZ >> 2) * sizeof(Cell));
  data_lo = (uintptr_t) &__data_start & ~15ULL; data_hi = ((uintptr_t) &_end + 15) & ~15ULL;
  map_at(SSH, ((data_hi - data_lo) * sizeof(Cell) + 4095) & ~4095ULL);
  for(int i = 0; i < MAXT; ++i) map_at(STK + (uintptr_t) i * (STK_SZ * 2), STK_SZ);
  brk_ = ARENA + 64;
  freel = new (::malloc(sizeof *freel)) hmap<size_t, vec<uintptr_t>>();
  quarq = new (::malloc(sizeof *quarq)) vec<uintptr_t>();
}

static inline unsigned char* ash(uintptr_t a) { return (unsigned char*) (ASH + ((a - ARENA) >> 3)); }

static void race_clear(uintptr_t a, size_t n) { memset((void*) cell_arena(a), 0, ((n + 3) >> 2) * sizeof(Cell)); }
static void access(uintptr_t a, size_t n, bool w, uintptr_t pc);

static void* arena_alloc(size_t n, unsigned flags)
{
  arena_init();
  if(n == 0) n = 1;
  if(n > (ARENA_SZ >> 1)) { if(cur) ++cur->full; return nullptr; }
  size_t cap = (n + 15) & ~15ULL;
  uintptr_t u = 0;
  vec<uintptr_t>& fl = (*freel)[cap];
  if(!fl.empty()) { u = fl.back(); fl.pop_back(); ++st_recycled; }
  else
  {
    if(brk_ + 16 + cap + 16 > ARENA + ARENA_SZ) { if(cur) ++cur->full; return nullptr; }
    u = brk_ + 16; brk_ += 16 + cap + 16;
  }
  Hdr* h = (Hdr*) (u - 16);
  h->size = (unsigned) n; h->cap = (unsigned) cap; h->seq = ++aseq;
  h->flags = (unsigned short) (F_LIVE | flags | ((cur == nullptr || cur->quiet) ? F_HARNESS : 0));
  h->op = (unsigned short) (cur ? ((cur->as << 12) | (cur->op & 0xFFF)) : 0xFFFF);
  memset((void*) u, cfg.fill, cap);
  unsigned char* s = ash(u);
  memset(s, 8, n >> 3); if(n & 7) s[n >> 3] = (unsigned char) (n & 7);
  if((((n + 7) >> 3) << 3) < cap) s[(n + 7) >> 3] = 0;
  if(live_mt) race_clear(u, cap);
  ++nlive; if(!(h->flags & F_HARNESS)) ((h->flags & F_MP) ? nheld_mp : nheld) += n;
  return (void*) u;
}

static void arena_release(uintptr_t u, size_t cap) { (*freel)[cap].push_back(u); }

static void arena_free(void* p, size_t sz, bool check_sz, unsigned kind)
{
  uintptr_t u = (uintptr_t) p;
  if(u < ARENA || u >= ARENA + ARENA_SZ) { fatal_violation("badfree", "free of a pointer the allocator never returned"); }
  Hdr* h = (Hdr*) (u - 16);
  unsigned char* s = ash(u);
  if((u & 15) != 0 || *s == 0) fatal_violation("badfree", "free of a pointer that is not the start of a block");
  if(!(h->flags & F_LIVE) || *s == 0xFF) fatal_violation("doublefree", "block freed twice (size %u)", h->size);
  if((h->flags & F_MP) != (kind & F_MP)) fatal_violation("badfree", "block freed by the wrong allocator");
  if(check_sz && h->size != sz) violation("badfree", "block of %u bytes released as %zu bytes", h->size, sz);
  if(cur && !cur->quiet && live_mt) access(u, h->size < 8 ? h->size : 8, true, (uintptr_t) __builtin_return_address(0));
  h->flags &= (unsigned short) ~F_LIVE;
  --nlive; if(!(h->flags & F_HARNESS)) ((h->flags & F_MP) ? nheld_mp : nheld) -= h->size;
  memset((void*) u, cfg.fill ^ 0x5A, h->cap);
  memset(s, 0xFF, (h->size + 7) >> 3);
  if(cfg.quar <= 0) { arena_release(u, h->cap); return; }
  if((int) quarq->size() < cfg.quar) { quarq->push_back(u); return; }
  uintptr_t old = (*quarq)[quar_i % quarq->size()];
  (*quarq)[quar_i % quarq->size()] = u; ++quar_i;
  arena_release(old, ((Hdr*) (old - 16))->cap);
}

bool is_live_ptr(const void* p)
{
  uintptr_t u = (uintptr_t) p;
  return u >= ARENA && u < ARENA + ARENA_SZ && *ash(u) != 0 && *ash(u) != 0xFF;
}
unsigned long long live_blocks() { return nlive; }
unsigned long long held_bytes(bool mp) { return mp ? nheld_mp : nheld; }

static void scheduling_point(int kind);
static void check_block_access(uintptr_t a, size_t n, bool w, uintptr_t pc)
{
  unsigned char* s = ash(a);
  size_t off = a & 7;
  size_t left = n;
  while(left)
  {
    size_t take = 8 - off; if(take > left) take = left;
    unsigned char v = *s;
    if(v == 0xFF) { fatal_violation("uaf", "%s of %zu bytes of freed memory pc=%zx", w ? "write" : "read", n, (size_t) pc); }
    if(v < off + take) { fatal_violation("oob", "%s of %zu bytes outside any block pc=%zx", w ? "write" : "read", n, (size_t) pc); }
    left -= take; off = 0; ++s;
  }
}

// ------------------------------------------------------------------ race detection (vector clocks)
static const unsigned CLK = (1U << 28) - 1;
static hmap<uintptr_t, VC>* sync_vc;
static hmap<unsigned long long, int>* race_seen;

static void race_report(uintptr_t a, bool w, uintptr_t pc, bool otherw, unsigned opc, int ot)
{
  unsigned long long key = ((unsigned long long) (unsigned) pc << 32) ^ opc ^ (w ? 1 : 0);
  if((*race_seen)[key]++) return;
  violation("race", "%s by thread %d pc=%zx against %s by thread %d pc=%x at %s %zx", w ? "write" : "read", cur->tid, (size_t) pc, otherw ? "write" : "read", ot, opc,
            (a >= data_lo && a < data_hi) ? "static" : "heap", (size_t) a);
}

static inline void race_cell(Cell* c, uintptr_t a, bool w, uintptr_t pc)
{
  Thr* t = cur; const int me = t->tid; const unsigned now = t->vc.c[me];
  const unsigned we = c->w;
  if(we) { const int wt = (int) (we >> 28); if(wt != me && (we & CLK) > t->vc.c[wt]) race_report(a, w, pc, true, c->wpc, wt); }
  if(w)
  {
    for(int i = 0; i < MAXT; ++i) if(i != me && c->r[i] > t->vc.c[i]) race_report(a, w, pc, false, c->rpc, i);
    c->w = ((unsigned) me << 28) | (now & CLK); c->wpc = (unsigned) pc;
    for(int i = 0; i < MAXT; ++i) c->r[i] = 0;
  }
  else { c->r[me] = now; c->rpc = (unsigned) pc; }
}

static void race_range(uintptr_t a, size_t n, bool w, uintptr_t pc)
{
  ++st_race_checks;
  if(a >= ARENA && a < ARENA + ARENA_SZ) { for(uintptr_t g = a & ~3ULL; g < a + n; g += 4) race_cell(cell_arena(g), g, w, pc); }
  else if(a >= data_lo && a + n <= data_hi) { for(uintptr_t g = a; g < a + n; ++g) race_cell(cell_static(g), g, w, pc); }
}

static void hb_acquire(uintptr_t a) { auto it = sync_vc->find(a); if(it != sync_vc->end()) for(int i = 0; i < MAXT; ++i) if(it->second.c[i] > cur->vc.c[i]) cur->vc.c[i] = it->second.c[i]; }
static void hb_release(uintptr_t a)
{
  auto it = sync_vc->find(a);
  if(it == sync_vc->end()) { VC z; memset(&z, 0, sizeof z); it = sync_vc->emplace(a, z).first; }
  for(int i = 0; i < MAXT; ++i) if(cur->vc.c[i] > it->second.c[i]) it->second.c[i] = cur->vc.c[i];
  ++cur->vc.c[cur->tid];
}

// ------------------------------------------------------------------ scheduler
static long fwait(int* f, int v) { return syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static long fwake(int* f)        { return syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void park_until_running(Thr* t)
{
  for(;;)
  {
    if(__atomic_load_n(&t->futex, __ATOMIC_ACQUIRE) == 1) break;
    fwait(&t->futex, 0);
  }
  __atomic_store_n(&t->futex, 0, __ATOMIC_RELAXED);
}
static void hand_to(int n)
{
  running = n;
  __atomic_store_n(&thr[n].futex, 1, __ATOMIC_RELEASE); fwake(&thr[n].futex);
}

// Long runs become coarser: the number of context switches grows like the logarithm of their length.
static double thin() { return st_pre < 20000 ? 1.0 : 20000.0 / (double) st_pre; }

static void draw_next(Thr* t)
{
  if(cfg.replay || cfg.mean <= 0) { t->next_pp = -1; return; }
  double u = rng.uni(); if(u < 1e-12) u = 1e-12;
  long long d = (long long) (-std::log(u) * cfg.mean / thin()); if(d < 1) d = 1;
  t->next_pp = t->pp + d;
}

static void record(int tid, int forced, long long step, int next)
{
  Switch s; s.tid = tid; s.forced = forced; s.step = step; s.next = next;
  taken.push_back(s);
  long long h[3] = { tid * 2 + forced, step, next }; hash_bytes(h, sizeof h);
}

static int runnable(int* list, int except)
{
  int n = 0;
  for(int i = 0; i < nthr; ++i) if(i != except && thr[i].st == S_READY) list[n++] = i;
  return n;
}

static void switch_from(Thr* t, int next)
{
  if(next == t->tid) return;
  hand_to(next);
  if(t->st != S_DONE) park_until_running(t);
}

// The current thread cannot go on (blocked or finished), or yields: somebody else must run.
static void forced_switch(Thr* t, bool must)
{
  int l[MAXT]; int n = runnable(l, t->tid);
  if(n == 0)
  {
    if(!must) return;
    bool all = true;
    for(int i = 0; i < nthr; ++i) if(thr[i].st == S_BLOCKED) all = false;
    if(all) { return; }
    char b[200]; b[0] = 0; size_t o = 0;
    for(int i = 0; i < nthr; ++i) if(thr[i].st == S_BLOCKED) o += (size_t) snprintf(b + o, sizeof b - o, " t%d@%zx", i, (size_t) thr[i].blocked_on);
    fatal_violation("deadlock", "no thread can run:%s", b);
  }
  int next = -1;
  long idx = ++t->forced;
  if(cfg.replay)
  {
    for(const Switch& s : given[t->tid]) if(s.forced && s.step == idx) next = s.next;
    bool ok = false; for(int i = 0; i < n; ++i) if(l[i] == next) ok = true;
    if(!ok) next = l[0];
  }
  else next = l[n == 1 ? 0 : rng.below((unsigned) n)];
  ++st_forced;
  if(n > 1 || cfg.replay || !must) record(t->tid, 1, idx, next);
  switch_from(t, next);
}

static void voluntary(Thr* t)
{
  int l[MAXT]; int n = runnable(l, t->tid);
  if(n == 0) return;
  int next = l[n == 1 ? 0 : rng.below((unsigned) n)];
  ++st_pre;
  record(t->tid, 0, t->pp, next);
  switch_from(t, next);
}

static void hang_check(Thr* t)
{
  if(++total_steps > budget) fatal_violation("hang", "the operation did not finish within %lld steps (pp=%lld)", budget, t->pp);
}

enum { K_ACC, K_STATICW, K_SYNC, K_MP };
static inline void scheduling_point(int kind)
{
  Thr* t = cur;
  ++t->pp;
  if(!live_mt) return;
  if(cfg.replay)
  {
    vec<Switch>& g = given[t->tid];
    while(t->rep_i < g.size() && (g[t->rep_i].forced || g[t->rep_i].step < t->pp)) ++t->rep_i;
    if(t->rep_i < g.size() && g[t->rep_i].step == t->pp)
    {
      int next = g[t->rep_i++].next;
      if(next >= 0 && next < nthr && next != t->tid && thr[next].st == S_READY) { ++st_pre; record(t->tid, 0, t->pp, next); switch_from(t, next); }
    }
    return;
  }
  bool go = false;
  if(kind == K_SYNC && ++t->syncs % 500 == 0) go = true; // a thread that spins on an atomic cannot starve the others
  if(t->next_pp >= 0 && t->pp >= t->next_pp) { go = true; }
  else if(kind == K_STATICW && cfg.pstatic > 0 && rng.uni() < cfg.pstatic * thin()) go = true;
  else if(kind == K_SYNC    && cfg.psync   > 0 && rng.uni() < cfg.psync * thin())   go = true;
  else if(kind == K_MP      && cfg.pmp     > 0 && rng.uni() < cfg.pmp * thin())     go = true;
  if(go) { voluntary(t); draw_next(t); }
}

void point()     { if(cur && !cur->quiet) scheduling_point(K_SYNC); }
void yield_now() { if(cur && !cur->quiet && live_mt) { forced_switch(cur, false); } }

// ------------------------------------------------------------------ memory accesses
static void access(uintptr_t a, size_t n, bool w, uintptr_t pc)
{
  Thr* t = cur;
  if(t == nullptr) return;
  ++t->steps;
  if(a - t->stk_lo < t->stk_sz) { if(a < t->stk_min) t->stk_min = a; hang_check(t); return; }
  if(a - ARENA < ARENA_SZ)
  {
    check_block_access(a, n, w, pc);
    if(t->quiet) return;
    hang_check(t);
    ++st_acc;
    if(live_mt)
    {
      if(cfg.race) race_range(a, n, w, pc);
      scheduling_point(K_ACC);
      check_block_access(a, n, w, pc);   // freed by somebody else meanwhile?
    }
    else ++t->pp;
    return;
  }
  if(t->quiet) return;
  hang_check(t);
  if(a >= data_lo && a < data_hi)
  {
    ++st_stat_acc;
    if(live_mt) { if(cfg.race) race_range(a, n, w, pc); scheduling_point(w ? K_STATICW : K_ACC); }
    else ++t->pp;
  }
}
} // namespace rt

using namespace rt;
#define PC ((uintptr_t) __builtin_return_address(0))
extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void*) { if(cur && !cur->quiet) { const uintptr_t f = (uintptr_t) __builtin_frame_address(0); if(f < cur->stk_min) cur->stk_min = f; hang_check(cur); } }
void __tsan_func_exit() {}

// Development aid (SIM_COV): the basic blocks that were reached, one byte each, in a file shared by all processes.
static unsigned char* cov_map;
extern "C" char __executable_start, etext;
void __sanitizer_cov_trace_pc()
{
  static bool tried;
  if(!tried)
  {
    tried = true;
    const char* g = getenv("SIM_COV_FILE"); char f[512] = "";
    if(g) { char e[256]; const ssize_t k = readlink("/proc/self/exe", e, sizeof e - 1); if(k > 0) { e[k] = 0; snprintf(f, sizeof f, "%s.%s", g, strrchr(e, 47) + 1); } }
    const int fd = *f ? open(f, O_RDWR | O_CREAT, 0644) : -1;
    const size_t n = (size_t) (&etext - &__executable_start) + 4096;
    if(fd >= 0 && ftruncate(fd, (off_t) n) == 0)
    {
      void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if(p != MAP_FAILED) cov_map = (unsigned char*) p;
    }
  }
  if(cov_map) cov_map[(uintptr_t) __builtin_return_address(0) - (uintptr_t) &__executable_start] = 1;
}
#define ACC(n) \
  void __tsan_read##n (void* p) { access((uintptr_t) p, n, false, PC); } \
  void __tsan_write##n(void* p) { access((uintptr_t) p, n, true,  PC); } \
  void __tsan_unaligned_read##n (void* p) { access((uintptr_t) p, n, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { access((uintptr_t) p, n, true,  PC); } \
  void __tsan_volatile_read##n (void* p) { access((uintptr_t) p, n, false, PC); } \
  void __tsan_volatile_write##n(void* p) { access((uintptr_t) p, n, true,  PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range (void* p, unsigned long n) { if(n) access((uintptr_t) p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { if(n) access((uintptr_t) p, n, true,  PC); }
void __tsan_vptr_update(void** p, void* v) { if(*p != v) access((uintptr_t) p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access((uintptr_t) p, 8, false, PC); }

// atomics: serialised by construction; memory orders decide the happens-before edges
static void at_pre(void)  { if(cur && !cur->quiet) { ++st_atom; hang_check(cur); scheduling_point(K_SYNC); } }
static void at_acq(void* p, int mo) { if(cur && live_mt && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) hb_acquire((uintptr_t) p); }
static void at_rel(void* p, int mo) { if(cur && live_mt && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) hb_release((uintptr_t) p); }
static void at_chk(void* p, int n) { uintptr_t a = (uintptr_t) p; if(cur && a - ARENA < ARENA_SZ) check_block_access(a, (size_t) n, true, 0); }
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* p, int mo) { at_pre(); at_chk((void*) p, bits / 8); at_acq((void*) p, mo); return *p; } \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { at_pre(); at_chk((void*) p, bits / 8); at_rel((void*) p, mo); *p = v; } \
  T __tsan_atomic##bits##_exchange (volatile T* p, T v, int mo) { at_pre(); at_chk((void*) p, bits / 8); at_acq((void*) p, mo); at_rel((void*) p, mo); T o = *p; *p = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { at_pre(); at_chk((void*) p, bits / 8); at_acq((void*) p, mo); at_rel((void*) p, mo); T o = *p; *p = (T) (o + v); return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { at_pre(); at_chk((void*) p, bits / 8); at_acq((void*) p, mo); at_rel((void*) p, mo); T o = *p; *p = (T) (o - v); return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { at_pre(); at_chk((void*) p, bits / 8); at_acq((void*) p, mo); at_rel((void*) p, mo); T o = *p; *p = (T) (o & v); return o; } \
  T __tsan_atomic##bits##_fetch_or (volatile T* p, T v, int mo) { at_pre(); at_chk((void*) p, bits / 8); at_acq((void*) p, mo); at_rel((void*) p, mo); T o = *p; *p = (T) (o | v); return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { at_pre(); at_chk((void*) p, bits / 8); at_acq((void*) p, mo); at_rel((void*) p, mo); T o = *p; *p = (T) (o ^ v); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { at_pre(); at_chk((void*) p, bits / 8); if(*p == *e) { at_acq((void*) p, mo); at_rel((void*) p, mo); *p = v; return 1; } at_acq((void*) p, fmo); *e = *p; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { T x = e; __tsan_atomic##bits##_compare_exchange_strong(p, &x, v, mo, fmo); return x; }
typedef unsigned char  a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64;
AT(8, a8) AT(16, a16) AT(32, a32) AT(64, a64)
void __tsan_atomic_thread_fence(int) { if(cur && live_mt) { hb_acquire(1); hb_release(1); } }
void __tsan_atomic_signal_fence(int) {}

// ---- static-initialisation guards
struct GuardState { int owner; };
static hmap<uintptr_t, int>* guards;      // address -> owner tid while in progress

static void block_on(Thr* t, const void* a) { t->st = S_BLOCKED; t->blocked_on = a; forced_switch(t, true); }
static void wake_all(const void* a) { for(int i = 0; i < nthr; ++i) if(thr[i].st == S_BLOCKED && thr[i].blocked_on == a) { thr[i].st = S_READY; thr[i].blocked_on = nullptr; } }

int __cxa_guard_acquire(char* g)
{
  if(cur == nullptr) { if(g[0]) return 0; g[1] = 1; return 1; }
  ++st_guards;
  if(!cur->quiet) { hang_check(cur); scheduling_point(K_SYNC); }
  for(;;)
  {
    if(g[0]) { hb_acquire((uintptr_t) g); return 0; }
    auto it = guards->find((uintptr_t) g);
    if(it == guards->end()) { (*guards)[(uintptr_t) g] = cur->tid; g[1] = 1; hb_acquire((uintptr_t) g); return 1; }
    if(it->second == cur->tid) fatal_violation("recursion", "a static object's initialisation re-entered itself guard=%zx pc=%zx", (size_t) g, (size_t) PC);
    ++st_guard_waits;
    block_on(cur, g);
  }
}
void __cxa_guard_release(char* g)
{
  g[1] = 0; g[0] = 1;
  if(cur == nullptr) return;
  guards->erase((uintptr_t) g); hb_release((uintptr_t) g); wake_all(g);
  if(!cur->quiet) scheduling_point(K_SYNC);
}
void __cxa_guard_abort(char* g)
{
  g[1] = 0;
  if(cur == nullptr) return;
  guards->erase((uintptr_t) g); hb_release((uintptr_t) g); wake_all(g);
}

// ---- locks (only calls made by the library's own objects are wrapped)
struct Lk { int owner; int count; int readers; };
static hmap<uintptr_t, Lk>* locks;
static Lk& lk(const void* m) { auto it = locks->find((uintptr_t) m); if(it == locks->end()) { Lk z = { -1, 0, 0 }; it = locks->emplace((uintptr_t) m, z).first; } return it->second; }
static bool is_rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
  if(!cur) return 0;
  ++st_mtx;
  if(!cur->quiet) { hang_check(cur); scheduling_point(K_SYNC); }
  for(;;)
  {
    Lk& l = lk(m);
    if(l.owner < 0) { l.owner = cur->tid; l.count = 1; hb_acquire((uintptr_t) m); return 0; }
    if(l.owner == cur->tid && is_rec(m)) { ++l.count; return 0; }
    if(l.owner == cur->tid) fatal_violation("deadlock", "a thread locks a mutex it already holds");
    ++st_mtx_waits; block_on(cur, m);
  }
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
  if(!cur) return 0;
  if(!cur->quiet) scheduling_point(K_SYNC);
  Lk& l = lk(m);
  if(l.owner < 0) { l.owner = cur->tid; l.count = 1; hb_acquire((uintptr_t) m); return 0; }
  if(l.owner == cur->tid && is_rec(m)) { ++l.count; return 0; }
  return EBUSY;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
  if(!cur) return 0;
  Lk& l = lk(m);
  if(--l.count == 0) { l.owner = -1; hb_release((uintptr_t) m); wake_all(m); if(!cur->quiet) scheduling_point(K_SYNC); }
  return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
  if(!cur) return 0;
  ++st_mtx; if(!cur->quiet) { hang_check(cur); scheduling_point(K_SYNC); }
  for(;;)
  {
    Lk& l = lk(m);
    if(l.owner < 0 && l.readers == 0) { l.owner = cur->tid; hb_acquire((uintptr_t) m); return 0; }
    if(l.owner == cur->tid) fatal_violation("deadlock", "a thread locks a lock it already holds");
    ++st_mtx_waits; block_on(cur, m);
  }
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
  if(!cur) return 0;
  ++st_mtx; if(!cur->quiet) { hang_check(cur); scheduling_point(K_SYNC); }
  for(;;)
  {
    Lk& l = lk(m);
    if(l.owner < 0) { ++l.readers; hb_acquire((uintptr_t) m); return 0; }
    if(l.owner == cur->tid) fatal_violation("deadlock", "a thread locks a lock it already holds");
    ++st_mtx_waits; block_on(cur, m);
  }
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
  if(!cur) return 0;
  Lk& l = lk(m);
  if(l.owner == cur->tid) l.owner = -1; else if(l.readers > 0) --l.readers;
  hb_release((uintptr_t) m); wake_all(m); if(!cur->quiet) scheduling_point(K_SYNC);
  return 0;
}
int __wrap_pthread_once(pthread_once_t* o, void (*fn)(void))
{
  static_assert(sizeof(pthread_once_t) == 4, "");
  if(!cur) { if(*o != 2) { fn(); *o = 2; } return 0; }
  ++st_guards;
  if(!cur->quiet) { hang_check(cur); scheduling_point(K_SYNC); }
  for(;;)
  {
    if(*o == 2) { hb_acquire((uintptr_t) o); return 0; }
    auto it = guards->find((uintptr_t) o);
    if(it == guards->end()) break;
    if(it->second == cur->tid) fatal_violation("recursion", "call_once re-entered itself");
    ++st_guard_waits; block_on(cur, o);
  }
  (*guards)[(uintptr_t) o] = cur->tid;
  try { fn(); } catch(...) { guards->erase((uintptr_t) o); wake_all(o); throw; }
  *o = 2; guards->erase((uintptr_t) o); hb_release((uintptr_t) o); wake_all(o);
  if(!cur->quiet) scheduling_point(K_SYNC);
  return 0;
}
int __wrap_sched_yield() { yield_now(); return 0; }

// ---- memory functions called by instrumented code
void* __wrap_memcpy (void* d, const void* s, size_t n) { if(cur && n) { access((uintptr_t) s, n, false, PC); access((uintptr_t) d, n, true, PC); } return memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if(cur && n) { access((uintptr_t) s, n, false, PC); access((uintptr_t) d, n, true, PC); } return memmove(d, s, n); }
void* __wrap_memset (void* d, int c, size_t n)         { if(cur && n) access((uintptr_t) d, n, true, PC); return memset(d, c, n); }
int   __wrap_memcmp (const void* a, const void* b, size_t n) { if(cur && n) { access((uintptr_t) a, n, false, PC); access((uintptr_t) b, n, false, PC); } return memcmp(a, b, n); }

// red-black tree insertion/erasure happen inside libstdc++: report the header they modify
void real_rb_insert(bool, void*, void*, void*) asm("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
void  __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, void* x, void* p, void* h)
{
  if(cur) { access((uintptr_t) h, 32, true, PC); access((uintptr_t) p, 32, true, PC); }
  real_rb_insert(l, x, p, h);
}
// std::list hook
void real_list_hook(void*, void*) asm("_ZNSt8__detail15_List_node_base7_M_hookEPS0_");
void __wrap__ZNSt8__detail15_List_node_base7_M_hookEPS0_(void* n, void* pos) { if(cur) access((uintptr_t) pos, 16, true, PC); real_list_hook(n, pos); }

// ---- clocks
static long long sim_cpu, sim_wall = 1700000000LL * 1000000000LL, sim_mono = 5000LL * 1000000000LL;
long __wrap_clock() { ++st_clock; return (long) (sim_cpu / 1000); }
long __wrap_time(long* p) { ++st_clock; long v = (long) (sim_wall / 1000000000LL); if(p) *p = v; return v; }
static long long clk_of(int id)
{
  switch(id)
  {
    case CLOCK_PROCESS_CPUTIME_ID: return sim_cpu;
    case CLOCK_THREAD_CPUTIME_ID:  return cur ? cur->tcpu : sim_cpu;
    case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: return sim_wall;
    default: return sim_mono;
  }
}
int __wrap_clock_gettime(int id, struct timespec* ts) { ++st_clock; long long v = clk_of(id); ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL; return 0; }
int __wrap_gettimeofday(struct timeval* tv, void*) { ++st_clock; tv->tv_sec = sim_wall / 1000000000LL; tv->tv_usec = (sim_wall / 1000) % 1000000; return 0; }
int __wrap_timespec_get(struct timespec* ts, int b) { ++st_clock; ts->tv_sec = sim_wall / 1000000000LL; ts->tv_nsec = sim_wall % 1000000000LL; return b; }
long __wrap_times(struct tms* b) { ++st_clock; if(b) { memset(b, 0, sizeof *b); b->tms_utime = sim_cpu / 10000000LL; } return (long) (sim_mono / 10000000LL); }
int __wrap_getrusage(int who, struct rusage* r) { ++st_clock; memset(r, 0, sizeof *r); long long v = (who == RUSAGE_SELF) ? sim_cpu : (cur ? cur->tcpu : 0); r->ru_utime.tv_sec = v / 1000000000LL; r->ru_utime.tv_usec = (v / 1000) % 1000000; return 0; }
long long __wrap__ZNSt6chrono3_V212system_clock3nowEv() { ++st_clock; return sim_wall; }
long long __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { ++st_clock; return sim_mono; }
unsigned __wrap_sleep(unsigned s) { sim_wall += s * 1000000000LL; sim_mono += s * 1000000000LL; yield_now(); return 0; }
int __wrap_nanosleep(const struct timespec* t, struct timespec*) { long long n = t->tv_sec * 1000000000LL + t->tv_nsec; sim_wall += n; sim_mono += n; yield_now(); return 0; }
int __wrap_usleep(unsigned u) { sim_wall += u * 1000LL; sim_mono += u * 1000LL; yield_now(); return 0; }

// ---- GMP/MPFR calls (see stubs.S): id indexes the table of names
extern const char* const sim_mp_names[]; extern const int sim_mp_count;
extern const unsigned char sim_text[][9];  // up to three times: argument, bytes (255: a C string), written
extern const unsigned char sim_mp_kind[]; // bits 0-2: arguments written, bits 3-7: arguments 0-4 read
void sim_set_gmp_default_prec(unsigned long) __attribute__((weak));
void sim_set_mpfr_default_prec(long)         __attribute__((weak));
void sim_set_mpfr_default_rnd(int)           __attribute__((weak));
void sim_set_locale(int what, int val);
void sim_apply_env(int what, long val)
{
  ++st_env;
  if(what == 3 || what == 4) { sim_set_locale(what, (int) val); return; }
  if(what == 0 && sim_set_gmp_default_prec)  sim_set_gmp_default_prec((unsigned long) val);
  if(what == 1 && sim_set_mpfr_default_prec) sim_set_mpfr_default_prec(val);
  if(what == 2 && sim_set_mpfr_default_rnd)  sim_set_mpfr_default_rnd((int) val);
}
void sim_mp_struct(uintptr_t a, bool w, uintptr_t pc)
{
  if(!(a - ARENA < ARENA_SZ) && !(a >= data_lo && a < data_hi) && !(a - cur->stk_lo < cur->stk_sz)) return;
  access(a, 24, w, pc);
}
static void sim_text_access(long id, const unsigned long* a, uintptr_t pc)
{
  for(const unsigned char* k = sim_text[id]; k < sim_text[id] + 9 && k[1] != 0; k += 3)
    if(a[k[0]] != 0) access(a[k[0]], k[1] == 255 ? strlen((const char*) a[k[0]]) + 1 : k[1], k[2] != 0, pc);
}
void sim_std_hook(long id, unsigned long* a, uintptr_t pc)
{
  if(cur == nullptr || cur->quiet) return;
  sim_text_access(id, a, pc);
}
void sim_mp_hook(long id, unsigned long* a, uintptr_t pc)
{
  Thr* t = cur;
  if(t == nullptr || t->quiet) return;
  ++t->mpcalls; ++st_mp;
  if(t->in_op) ++t->levents;
  if(t->in_op && t->e) for(const EnvFault& e : envs) if(e.tid == t->as && e.op == t->op && e.at == (e.what < 3 ? t->mpcalls : t->levents)) { ++t->quiet; sim_apply_env(e.what, e.val); --t->quiet; }
  const unsigned k = sim_mp_kind[id];
  for(int i = 0; i < 3; ++i) if(k & (1u << i)) sim_mp_struct(a[i], true, pc);
  for(int i = 0; i < 5; ++i) if(k & (8u << i)) sim_mp_struct(a[i], false, pc);
  sim_text_access(id, a, pc);
  hang_check(t);
  scheduling_point(K_MP);
}
} // extern "C"

namespace rt
{
void adv_cpu(long long ns)  { sim_cpu += ns; sim_mono += ns; sim_wall += ns; if(cur) cur->tcpu += ns; }
void adv_wall(long long ns) { sim_wall += ns; if(ns > 0) sim_mono += ns; }
long long cpu_ns() { return sim_cpu; }

// ------------------------------------------------------------------ operator new/delete
struct Surv { uintptr_t u; unsigned seq; long k; };
static vec<Surv> survivors EARLY;   // profiling runs (one thread) only
static void* sim_new(size_t n, unsigned flags)
{
  Thr* t = cur;
  if(t && !t->quiet)
  {
    ++st_alloc; hang_check(t);
    if(t->in_op)
    {
      ++t->allocs; ++t->levents;
      if(t->e) for(const EnvFault& e : envs)
        if(e.what >= 3 && e.tid == t->as && e.op == t->op && e.at == t->levents) { ++t->quiet; sim_apply_env(e.what, e.val); --t->quiet; }
      if(t->f) for(const Fault& f : faults)
        if(f.tid == t->as && f.op == t->op && t->allocs >= f.from && t->allocs <= f.to) { ++t->fired; ++st_fail; return nullptr; }
    }
  }
  void* p = arena_alloc(n, flags);
  if(p && cfg.surv && t && !t->quiet && t->in_op) survivors.push_back({ (uintptr_t) p, ((Hdr*) ((uintptr_t) p - 16))->seq, t->allocs });
  return p;
}
}
void* operator new(size_t n)                                  { void* p = sim_new(n, 0); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n)                                { void* p = sim_new(n, F_ARR); if(!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept   { return sim_new(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_new(n, F_ARR); }
void* operator new(size_t n, std::align_val_t)                { void* p = sim_new(n, 0); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t)              { void* p = sim_new(n, F_ARR); if(!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept                          { if(p) arena_free(p, 0, false, 0); }
void operator delete[](void* p) noexcept                        { if(p) arena_free(p, 0, false, 0); }
void operator delete(void* p, const std::nothrow_t&) noexcept   { if(p) arena_free(p, 0, false, 0); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { if(p) arena_free(p, 0, false, 0); }
void operator delete(void* p, size_t n) noexcept                { if(p) arena_free(p, n, true, 0); }
void operator delete[](void* p, size_t) noexcept                { if(p) arena_free(p, 0, false, 0); }
void operator delete(void* p, std::align_val_t) noexcept        { if(p) arena_free(p, 0, false, 0); }
void operator delete[](void* p, std::align_val_t) noexcept      { if(p) arena_free(p, 0, false, 0); }
void operator delete(void* p, size_t, std::align_val_t) noexcept   { if(p) arena_free(p, 0, false, 0); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { if(p) arena_free(p, 0, false, 0); }

// GMP's own allocator (cannot fail in GMP: it would abort) also lives in the arena.
extern "C" void* sim_gmp_alloc(size_t n)  { void* p = arena_alloc(n, F_MP); if(!p) _exit(96); return p; }
extern "C" void  sim_gmp_free(void* p, size_t n) { if(p) arena_free(p, n, true, F_MP); }
extern "C" void* sim_gmp_realloc(void* p, size_t o, size_t n)
{
  void* q = sim_gmp_alloc(n); if(p) { memcpy(q, p, o < n ? o : n); sim_gmp_free(p, o); } return q;
}
// C allocator calls made by the library's own objects go through the same allocator and the same faults.
extern "C" void* __wrap_malloc(size_t n)  { return sim_new(n, 0); }
extern "C" void  __wrap_free(void* p)     { if(!p) return; if((uintptr_t) p - ARENA < ARENA_SZ) arena_free(p, 0, false, ((Hdr*) ((uintptr_t) p - 16))->flags & F_MP); else ::free(p); }
extern "C" void* __wrap_calloc(size_t a, size_t b) { void* p = sim_new(a * b, 0); if(p) memset(p, 0, a * b); return p; }
extern "C" void* __wrap_realloc(void* p, size_t n)
{
  if(!p) return sim_new(n, 0);
  size_t o = ((Hdr*) ((uintptr_t) p - 16))->size; void* q = sim_new(n, 0); if(!q) return nullptr;
  memcpy(q, p, o < n ? o : n); arena_free(p, 0, false, 0); return q;
}

namespace rt
{
// ------------------------------------------------------------------ crashes
static void on_signal(int sig, siginfo_t* si, void*)
{
  if(sig == SIGXCPU || sig == SIGPROF) _exit(97); // the sandbox's time, not the simulation's: no verdict
  fatal_violation("signal", "signal %d (%s) address %zx", sig, strsignal(sig), (size_t) si->si_addr);
}
static void on_terminate()
{
  const std::type_info* ti = abi::__cxa_current_exception_type();
  fatal_violation("terminate", "std::terminate with %s", ti ? ti->name() : "no exception");
}

static pthread_key_t end_key;
static void thread_end(void*);
static char altstk[65536];
void begin_run()
{
  arena_init();
  sync_vc = new (::malloc(sizeof *sync_vc)) hmap<uintptr_t, VC>();
  race_seen = new (::malloc(sizeof *race_seen)) hmap<unsigned long long, int>();
  guards = new (::malloc(sizeof *guards)) hmap<uintptr_t, int>();
  locks = new (::malloc(sizeof *locks)) hmap<uintptr_t, Lk>();
  rng.s = cfg.seed;
  pthread_key_create(&end_key, thread_end);
  budget = cfg.budget > 0 ? cfg.budget : 400000000LL;
  std::set_terminate(on_terminate);
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstk; ss.ss_size = sizeof altstk; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for(int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP, SIGXCPU }) sigaction(s, &sa, nullptr);
}

static char thread_alt[MAXT][65536];
// Runs after the thread_local destructors, still holding the baton.
static void thread_end(void* p)
{
  Thr* t = (Thr*) p;
  t->in_op = false;
  t->st = S_DONE;
  if(t->tid != 0)
  {
    if(thr[0].st == S_BLOCKED && thr[0].blocked_on == &thr[0])
    {
      bool all = true; for(int i = 1; i < nthr; ++i) if(thr[i].st != S_DONE) all = false;
      if(all) { thr[0].st = S_READY; thr[0].blocked_on = nullptr; }
    }
    hb_release((uintptr_t) t);
    forced_switch(t, true);
  }
  cur = nullptr;
}
static void* thread_main(void* p)
{
  Thr* t = (Thr*) p;
  pthread_setspecific(end_key, t);
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = thread_alt[t->tid]; ss.ss_size = sizeof thread_alt[0]; sigaltstack(&ss, nullptr);
  park_until_running(t);
  cur = t;
  t->fn(t->arg);
  return nullptr;
}

static void make_thread(Thr* t)
{
  t->stk_lo = STK + (uintptr_t) t->tid * (STK_SZ * 2); t->stk_sz = STK_SZ;
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, (void*) t->stk_lo, t->stk_sz);
  if(pthread_create(&t->th, &at, thread_main, t) != 0) _exit(95);
  pthread_attr_destroy(&at);
}

static Thr* new_thr(void (*fn)(void*), void* arg)
{
  Thr* t = &thr[nthr]; memset(t, 0, sizeof *t);
  t->tid = t->as = nthr++; t->st = S_READY; t->fn = fn; t->arg = arg; t->op = -1;
  t->vc.c[t->tid] = 1;
  return t;
}

void run_main(void (*fn)(void*), void* arg)
{
  Thr* t = new_thr(fn, arg);
  make_thread(t);
  hand_to(0);
  pthread_join(t->th, nullptr);
}

int spawn(void (*fn)(void*), void* arg)
{
  Thr* t = new_thr(fn, arg);
  for(int i = 0; i < MAXT; ++i) if(cur->vc.c[i] > t->vc.c[i]) t->vc.c[i] = cur->vc.c[i];
  ++cur->vc.c[0];
  draw_next(t);
  make_thread(t);
  return t->tid;
}

void join_all()
{
  if(nthr <= 1) return;
  live_mt = 1;
  thr[0].st = S_BLOCKED; thr[0].blocked_on = &thr[0];
  forced_switch(&thr[0], true);
  for(int i = 1; i < nthr; ++i) { pthread_join(thr[i].th, nullptr); hb_acquire((uintptr_t) &thr[i]); }
  live_mt = 0;
}

__attribute__((noinline)) static void scribble(size_t n)
{
  char* p = (char*) __builtin_alloca(n);
  memset(p, cfg.fill ^ 0x3C, n);
  asm volatile("" : : "r"(p) : "memory");
}

void op_begin(int op, int as)
{
  Thr* t = cur;
  if(cfg.scribble) scribble(49152);
  t->as = as; t->op = op; t->allocs = t->fired = t->mpcalls = t->levents = t->full = 0; t->opsteps0 = t->steps;
  survivors.clear();
  t->f = nullptr; t->e = nullptr;
  for(const Fault& f : faults)  if(f.tid == t->as && f.op == op) t->f = &f;
  for(const EnvFault& e : envs) if(e.tid == t->as && e.op == op) t->e = &e;
  t->stk_top = t->stk_min = (uintptr_t) __builtin_frame_address(0);
  t->in_op = true;
}
void op_end()
{
  cur->in_op = false;
  if(!cfg.surv) return;
  vec<long> l;
  for(const Surv& x : survivors) { const Hdr* h = (const Hdr*) (x.u - 16); if((h->flags & F_LIVE) && h->seq == x.seq) l.push_back(x.k); }
  survivors.clear();
  if(l.empty()) return;
  const size_t step = l.size() / 256 + 1;
  out("A %d %d", cur->tid, cur->op);
  for(size_t i = 0; i < l.size(); i += step) out(" %ld", l[i]);
  out("\n");
}
long op_stack()  { return (long) (cur->stk_top - cur->stk_min); }
long op_allocs() { return cur->allocs; }
long op_fired()  { return cur->fired; }
long op_full()   { return cur->full; }
long op_mpcalls(){ return cur->mpcalls; }
long long op_steps() { return cur->steps - cur->opsteps0; }
long long now_steps() { return total_steps; }

// ------------------------------------------------------------------ leak check
struct Roots { vec<std::pair<uintptr_t, uintptr_t>> r; };
static int phdr_cb(struct dl_phdr_info* i, size_t, void* d)
{
  Roots* R = (Roots*) d;
  for(int k = 0; k < i->dlpi_phnum; ++k)
    if(i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W))
      R->r.push_back({ i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz });
  return 0;
}
static void leak_check()
{
  Roots R; dl_iterate_phdr(phdr_cb, &R);
  uintptr_t tp = (uintptr_t) __builtin_thread_pointer();
  R.r.push_back({ (tp - 8192) & ~7ULL, tp });
  vec<uintptr_t> work;
  auto visit = [&](uintptr_t v)
  {
    if(v - ARENA >= ARENA_SZ || v >= brk_) return;
    unsigned char s = *ash(v); if(s == 0 || s == 0xFF) return;
    uintptr_t g = v & ~15ULL;
    // walk back to the header: state bytes of the preceding header are 0
    while(*ash(g - 16) != 0 || *ash(g - 8) != 0) g -= 16;
    Hdr* h = (Hdr*) (g - 16);
    if(!(h->flags & F_LIVE) || (h->flags & F_MARK)) return;
    h->flags |= F_MARK; work.push_back(g);
  };
  auto scan = [&](uintptr_t lo, uintptr_t hi) { lo = (lo + 7) & ~7ULL; for(; lo + 8 <= hi; lo += 8) visit(*(uintptr_t*) lo); };
  for(auto& x : R.r) scan(x.first, x.second);
  vec<uintptr_t> blocks;
  for(uintptr_t u = ARENA + 64; u < brk_; ) { Hdr* h = (Hdr*) u; if(h->flags & F_LIVE) { blocks.push_back(u + 16); if(h->flags & F_HARNESS) visit(u + 16); } u += 16 + h->cap + 16; }
  while(!work.empty()) { uintptr_t g = work.back(); work.pop_back(); scan(g, g + ((Hdr*) (g - 16))->size); }
  unsigned n = 0; size_t bytes = 0; unsigned op = 0; unsigned seq = 0; unsigned sz0 = 0;
  for(uintptr_t b : blocks) { Hdr* h = (Hdr*) (b - 16); if(!(h->flags & F_MARK)) { if(!n) { op = h->op; seq = h->seq; sz0 = h->size; } ++n; bytes += h->size; } }
  if(n) violation("leak", "%u blocks, %zu bytes; first: %u bytes allocated by thread %u operation %u (allocation %u)", n, bytes, sz0, op >> 12, op & 0xFFF, seq);
}

static unsigned long long held_end, heldmp_end;
void end_run()
{
  held_end = nheld; heldmp_end = nheld_mp;
  if(cfg.leak) leak_check();
  finished_ok = true;
}

static void print_tail()
{
  if(cfg.plist) for(const Switch& s : taken) out("P %d %d %lld %d\n", s.tid, s.forced, s.step, s.next);
  out("X steps=%lld pre=%llu forced=%llu guards=%llu gwaits=%llu mtx=%llu mwaits=%llu atom=%llu alloc=%llu fail=%llu races=%llu env=%llu mp=%llu acc=%llu sacc=%llu clock=%llu recycled=%llu held=%llu heldmp=%llu taken=%zu cpu=%lld done=%d\n",
      total_steps, st_pre, st_forced, st_guards, st_guard_waits, st_mtx, st_mtx_waits, st_atom, st_alloc, st_fail, st_race_checks, st_env, st_mp, st_acc, st_stat_acc, st_clock, st_recycled, held_end, heldmp_end, taken.size(), sim_cpu, finished_ok ? 1 : 0);
  hash_bytes(&total_steps, sizeof total_steps); hash_bytes(&st_alloc, sizeof st_alloc); hash_bytes(&st_mp, sizeof st_mp);
  out("H %016llx\n", rhash);
}
} // namespace rt
