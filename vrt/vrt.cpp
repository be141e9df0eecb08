// vrt: controlled-execution monitoring runtime.  See DESIGN.md section "vrt".
//
// Harness translation units (which include the real library headers from /repo) are compiled with
// gcc -fsanitize=thread but linked against this file instead of libtsan.  Every memory access,
// atomic operation, pthread/futex operation and heap operation of the code under test is delivered
// here while it runs.  Real OS threads are used, but exactly one runs at any time (token passing),
// so that this file needs no locking and an execution is a deterministic function of its seed.
//
// NOTE: this file must not instantiate std:: templates (the linker could pick the instrumented
// COMDAT copies), hence the C style.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <exception>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <stdint.h>
#include <stddef.h>
#include "vrt.hpp"

namespace std { struct nothrow_t; enum class align_val_t : size_t; class bad_alloc; }
extern "C" void* __cxa_allocate_exception(size_t) noexcept;

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int64_t i64; typedef unsigned __int128 u128;
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define RETPC ((u64)__builtin_return_address(0))
#define INL static inline __attribute__((always_inline))

// ------------------------------------------------------------------------------------------------
// raw syscalls (never touch errno, never go through the interposed `syscall`)
static inline long rsys6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static inline void fwait(int* a, int v) { rsys6(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static inline void fwake(int* a) { rsys6(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
[[noreturn]] static void die(int rc) { for (;;) rsys6(SYS_exit_group, rc, 0, 0, 0, 0, 0); }

// ------------------------------------------------------------------------------------------------
enum { MAXT = 28, HIST = 10, STACK = 1 << 20, SHSTK = 512, MAXSC = 256, MAXOUT = 48, MAXCOV = 400,
       HASHBITS = 20, NSAMP = 6, SAMPLEN = 400, REPLEN = 24000, DESCLEN = 1600 };
static const u64 ARENA = 0x100000000000ull;
static const u64 PERS_SZ = 256ull << 20;                 // persistent (outside executions) heap
static const u64 HEAP_SZ = 1024ull << 20;                // execution heap
static const u64 STK_SZ = (u64)MAXT * STACK;
static const u64 EXEC_BASE = ARENA + PERS_SZ;
static const u64 STK_BASE = EXEC_BASE + HEAP_SZ;
static const u64 ARENA_END = STK_BASE + STK_SZ;
static const u64 SHADOW = 0x200000000000ull;             // 64 bytes of cell per 8 bytes of arena
static const u64 HSH = 0x300000000000ull;                // 1 byte of heap state per 8 bytes of arena
static const u64 GSHADOW = 0x310000000000ull;            // cells for exe globals
extern char __data_start, _end;

struct VC { u32 c[MAXT]; };

struct Entry { u32 epoch; u32 pc; u8 tid; u8 mask; u8 fl; u8 pad; };
enum { E_W = 1, E_A = 2 };
struct Cell { u32 gen; u8 n; u8 hasatomic; u8 rr; u8 pad; Entry e[4]; u64 pad2; };
static_assert(sizeof(Cell) == 64, "");

struct Store { u64 v[2]; u64 sctime; u32 seen[MAXT]; VC rel; u8 hasrel; u8 sc; };
struct Loc {
  u64 addr; u32 gen; u8 size; u8 dead; u8 n; u8 head;   // ring of n stores, newest at (head)
  Store* st[HIST];
  u64 base;          // index of oldest retained
};
struct Sync { u64 addr; u32 gen; VC vc; };

enum State : u8 { T_FREE, T_RUN, T_BLOCK, T_DONE };
enum BlockKind : u8 { B_NONE, B_MUTEX, B_COND, B_FUTEX, B_JOIN, B_SLEEP, B_ONCE, B_ALL, B_GUARD };
static const char* const bk_name[] = {"none", "mutex", "condition variable", "futex/atomic wait", "join", "sleep", "once", "all threads", "static guard"};

struct Thread {
  int id; State st; BlockKind bk; u64 baddr; u64 deadline; u8 timedout, woken, detached, joined, realdead, pers;
  int go;
  u64 prio;
  VC vc, scview, acq_pend, relf; u8 has_acq, has_relf; u64 last_scfence;
  u32 quiet;
  u64 spinaddr; u32 spincnt; u32 stalerun; u32 runlen; u32 casfail;
  int depth; u32 sh[SHSTK];
  pthread_t real; void* (*fn)(void*); void* arg; void* ret;
  u32 exc_alloc;
};

// shared memory (across workers)
struct ScStat {
  char name[64];
  u64 execs, steps, accesses, atomics, switches, stale, spur, allocs, observed, maxthreads, races_checked, faults;
  u64 estimate;   // running step estimate for PCT
  u64 distinct;   // distinct interleaving/input hashes
  u64 outn; struct { char s[120]; u64 n; } out[MAXOUT]; u64 outother;
  u64 skipped; u64 nviol;
};
struct Shared {
  ScStat sc[MAXSC];
  u64 covn; struct { char s[80]; u64 n; } cov[MAXCOV];
  u64 bits[(1u << HASHBITS) / 64 * MAXSC / 8];
  u64 nsamp; char samp[NSAMP][SAMPLEN + 200];
  struct W { int sc; u64 idx; u64 started; int busy; int kind; char rep[REPLEN]; } w[64];
  int lock;
};
static Shared* S;
static int g_worker;

static struct {
  bool inited, active;
  u32 gen;
  int nthr, live;
  Thread t[MAXT];
  VC scvc;
  u64 steps, accesses, atomics, switches, stale, spur, nallocs, races, nobs, now, limit, hash;
  int fair;
  // strategy
  int strat; u32 swp; u32 stalep; u32 spurp; u32 jumpp, idle_spins; u64 chg[8]; int nchg; u64 lowprio; int victim; u64 victim_until;
  u64 rng, wrng;
  // heap
  u64 pers_top, ex_base, ex_top; i64 live_new, live_bytes; long fail_at; int fail_tid; bool fault_fired; u64 serial;
  u64 loc_used, st_used, sync_used;
  // events
  u64 nlog;
  const vrt::scenario* cur; int curi; u64 idx, seed;
  char desc[DESCLEN]; int descn; char outc[120];
  int done; int rootdone;
  bool trace;
  int maxthr;
} g;
static thread_local Thread* self __attribute__((tls_model("initial-exec")));

enum { NLOC = 1 << 15, NSTORE = 1 << 16, NSYNC = 1 << 13, NLOG = 1 << 20 };
static Loc* locs; static Store* stores; static Sync* syncs; static vrt::event* logbuf; static Store** stfree; static u64 nstfree;

// ------------------------------------------------------------------------------------------------
// real functions
static int (*r_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*r_join)(pthread_t, void**);
static int (*r_detach)(pthread_t);
static int (*r_mlock)(pthread_mutex_t*), (*r_mtry)(pthread_mutex_t*), (*r_munlock)(pthread_mutex_t*);
static int (*r_cwait)(pthread_cond_t*, pthread_mutex_t*), (*r_csig)(pthread_cond_t*), (*r_cbc)(pthread_cond_t*);
static int (*r_once)(pthread_once_t*, void (*)());
static int (*r_clock)(clockid_t, struct timespec*);
static int (*r_nsleep)(const struct timespec*, struct timespec*);
static void (*r_addref)(void*), (*r_release)(void*);
template <class F> static void rs(F& f, const char* n) { f = (F)dlsym(RTLD_NEXT, n); }
static pthread_key_t exitkey;

INL u64 rnd(u64& s) { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
INL u32 rn(u32 n) { return (u32)((rnd(g.rng) >> 11) % n); }
INL bool permille(u32 p) { return p && rn(1000) < p; }
INL void mix(u64 x) { g.hash = (g.hash ^ x) * 0x100000001B3ull; g.hash ^= g.hash >> 29; }

// own memory primitives: memcpy & co are wrapped in the harness but not here
static void xcopy(void* d, const void* s, size_t n) { __builtin_memcpy(d, s, n); }
INL void vcjoin(VC& a, const VC& b) { for (int i = 0; i < g.nthr; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
INL void vccopy(VC& a, const VC& b) { xcopy(&a, &b, sizeof(u32) * MAXT); }

static void* xmap(u64 at, u64 sz) {
  void* p = mmap((void*)at, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
  if (p == MAP_FAILED) { static const char m[] = "vrt: mmap failed\n"; (void)!write(2, m, sizeof m - 1); die(3); }
  return p;
}

// ------------------------------------------------------------------------------------------------
// reports
static void rep_stack(char*& o, char* e, Thread* t) {
  int d = t->depth < SHSTK ? t->depth : SHSTK;
  o += snprintf(o, e - o, "  stack T%d:", t->id);
  for (int i = d - 1, k = 0; i >= 0 && k < 40 && e - o > 40; i--, k++) o += snprintf(o, e - o, " 0x%x", t->sh[i]);
  if (e - o > 2) o += snprintf(o, e - o, "\n");
}
static int reporting;
[[noreturn]] static void violation(const char* kind, u64 pc, u64 pc2, const char* fmt, ...) {
  if (reporting++) die(78);
  Shared::W& w = S->w[g_worker];
  char* o = w.rep; char* e = w.rep + REPLEN - 200;
  o += snprintf(o, e - o, "KIND %s\nSCENARIO %s\nSEED %llu\nINDEX %llu\nSTEP %llu\nMSG ", kind, g.cur ? g.cur->name : "?", (unsigned long long)g.seed, (unsigned long long)g.idx, (unsigned long long)g.steps);
  va_list ap; va_start(ap, fmt); o += vsnprintf(o, e - o - 1, fmt, ap); va_end(ap);
  if (o > e - 1000) o = e - 1000;
  o += snprintf(o, e - o, "\nTHREAD %d\nPC 0x%llx\nPC2 0x%llx\n", self ? self->id : -1, (unsigned long long)pc, (unsigned long long)pc2);
  o += snprintf(o, e - o, "CASE %.1500s\n", g.desc);
  if (self) rep_stack(o, e, self);
  for (int i = 0; i < g.nthr && e - o > 900; i++) {
    Thread* t = &g.t[i];
    if (t == self || t->st == T_FREE || t->st == T_DONE) continue;
    o += snprintf(o, e - o, "  T%d %s%s%s 0x%llx\n", i, t->st == T_BLOCK ? "blocked on " : "runnable", t->st == T_BLOCK ? bk_name[t->bk] : "", t->deadline ? " (timed)" : "", (unsigned long long)t->baddr);
    rep_stack(o, e, t);
  }
  *o = 0; w.kind = 1;
  if (g.trace) (void)!write(2, w.rep, o - w.rep);
  die(77);
}
[[noreturn]] static void harness_error(const char* msg) {
  Shared::W& w = S->w[g_worker];
  snprintf(w.rep, REPLEN, "KIND harness-error\nSCENARIO %s\nSEED %llu\nINDEX %llu\nMSG %s\n", g.cur ? g.cur->name : "?", (unsigned long long)g.seed, (unsigned long long)g.idx, msg);
  w.kind = 2; die(79);
}

#define TRACE(...) do { if (UNLIKELY(g.trace) && self && g.active) { char b_[300]; int n_ = snprintf(b_, 280, "[%llu T%d] ", (unsigned long long)g.steps, self->id); n_ += snprintf(b_ + n_, 290 - n_, __VA_ARGS__); b_[n_++] = '\n'; (void)!write(2, b_, n_); } } while (0)

// ------------------------------------------------------------------------------------------------
// scheduler
INL bool on() { return self != nullptr && g.active; }
INL bool on_loud() { return self != nullptr && g.active && !self->quiet; }

static void switch_to(Thread* n) {
  Thread* t = self;
  g.switches++;
  mix(n->id * 131 + 7);
  g.idle_spins = 0;
  __atomic_store_n(&n->go, 1, __ATOMIC_RELEASE); fwake(&n->go);
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) fwait(&t->go, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
INL void wake(Thread* t) { t->st = T_RUN; t->woken = 1; t->bk = B_NONE; t->deadline = 0; t->baddr = 0; }

static Thread* choose_thread(Thread* cur, bool force_other) {
  Thread* c[MAXT]; int n = 0; bool curin = false;
  for (int i = 0; i < g.nthr; i++) if (g.t[i].st == T_RUN) { if (&g.t[i] == cur) { curin = true; if (force_other) continue; } c[n++] = &g.t[i]; }
  if (n == 0) return curin ? cur : nullptr;
  if (n == 1 && c[0] == cur) return cur;
  if (g.fair) {  // round robin with a quantum
    if (curin && !force_other && ++cur->runlen < 40) return cur;
    cur->runlen = 0;
    for (int k = 1; k <= g.nthr; k++) { Thread* t = &g.t[(cur->id + k) % g.nthr]; if (t->st == T_RUN && (t != cur || !force_other)) return t; }
    return c[0];
  }
  if (g.strat == 1) {  // PCT
    for (int i = 0; i < g.nchg; i++) if (g.chg[i] == g.steps && curin) cur->prio = g.lowprio--;
    if (curin && ++cur->runlen > 2000) { cur->runlen = 0; cur->prio = g.lowprio--; }
    Thread* b = nullptr;
    for (int i = 0; i < n; i++) if (!b || c[i]->prio > b->prio) b = c[i];
    return b;
  }
  if (g.strat == 2 && g.steps < g.victim_until) {  // starve one thread for a long stretch
    int m = 0; for (int i = 0; i < n; i++) if (c[i]->id != g.victim) c[m++] = c[i];
    if (m) n = m;
    curin = false; for (int i = 0; i < n; i++) if (c[i] == cur) curin = true;
  }
  if (curin && !force_other && rn(1000) >= g.swp) return cur;
  return c[rn(n)];
}
static void all_blocked(Thread* t);
// advance virtual time to the earliest deadline (random jumps, made while threads can still run, stay below a minute)
static void fire_deadline(bool random = false) {
  Thread* b = nullptr;
  for (int i = 0; i < g.nthr; i++) { Thread* t = &g.t[i]; if (t->st == T_BLOCK && t->deadline && (!b || t->deadline < b->deadline)) b = t; }
  if (!b) return;
  if (random && b->deadline > g.now + 60000000000ull) return;
  if (b->deadline > g.now) g.now = b->deadline;
  for (int i = 0; i < g.nthr; i++) { Thread* t = &g.t[i]; if (t->st == T_BLOCK && t->deadline && t->deadline <= g.now) { wake(t); t->timedout = 1; t->woken = 0; } }
}
static bool have_timed() { for (int i = 0; i < g.nthr; i++) if (g.t[i].st == T_BLOCK && g.t[i].deadline) return true; return false; }

static void tick() {
  g.steps++; g.now += 100;
  if (UNLIKELY(g.steps > g.limit)) {
    if (!g.fair) { g.fair = 1; g.stalep = 0; g.spurp = 0; g.limit += 400000; }
    else violation("livelock", 0, 0, "no termination after %llu steps (the last 400000 of them under a fair round-robin schedule)", (unsigned long long)g.steps);
  }
}
static void sched(bool force_other = false) {
  Thread* t = self;
  tick();
  if (UNLIKELY(g.jumpp && permille(g.jumpp) && have_timed())) fire_deadline(true);
  else if (have_timed()) for (int i = 0; i < g.nthr; i++) { Thread* x = &g.t[i]; if (x->st == T_BLOCK && x->deadline && x->deadline <= g.now) { wake(x); x->timedout = 1; x->woken = 0; } }
  Thread* n = choose_thread(t, force_other);
  if (n && n != t) { t->runlen = 0; switch_to(n); }
}
static void run_other() {  // t is not runnable any more; returns when it is
  Thread* t = self;
  for (;;) {
    Thread* n = choose_thread(t, false);
    if (n == t) return;
    if (n) { switch_to(n); return; }
    if (have_timed()) { fire_deadline(); continue; }
    all_blocked(t);
    if (t->st == T_RUN) return;
  }
}
static void block(BlockKind k, u64 addr, u64 deadline) {
  Thread* t = self;
  t->st = T_BLOCK; t->bk = k; t->baddr = addr; t->deadline = deadline; t->timedout = 0; t->woken = 0;
  t->spincnt = 0; t->runlen = 0;
  tick();
  run_other();
}
static int others_alive(Thread* t) { int n = 0; for (int i = 0; i < g.nthr; i++) if (&g.t[i] != t && (g.t[i].st == T_RUN || g.t[i].st == T_BLOCK)) n++; return n; }
static void all_blocked(Thread* t) {
  // every live thread is blocked, no timeout pending
  for (int i = 0; i < g.nthr; i++) if (g.t[i].st == T_BLOCK && g.t[i].bk == B_ALL) {
    if (g.cur->flags & vrt::F_DAEMON) { wake(&g.t[i]); return; }
    violation("deadlock", 0, 0, "scenario finished but a thread it started is blocked for ever");
  }
  (void)t;
  violation("deadlock", 0, 0, "every thread is blocked and no timeout is pending");
}
static void spin_hint(u64 addr, bool progress) {
  Thread* t = self;
  if (progress) { t->spincnt = 0; t->spinaddr = 0; return; }
  if (t->spinaddr == addr) t->spincnt++; else { t->spinaddr = addr; t->spincnt = 1; }
  if (t->spincnt > 6) {
    if (g.strat == 1) t->prio = g.lowprio--;
    t->spincnt = 0; t->runlen = 0;
    if (g.now < 1ull << 62) g.now += 2000;
    if (others_alive(t)) {
      bool other = false; for (int i = 0; i < g.nthr; i++) if (&g.t[i] != t && g.t[i].st == T_RUN) other = true;
      if (!other && have_timed()) fire_deadline(++g.idle_spins < 300);
      sched(true);
    }
  }
}

// ------------------------------------------------------------------------------------------------
// shadow
INL Cell* cell_for(u64 a) {
  if (a - EXEC_BASE < ARENA_END - EXEC_BASE || a - ARENA < PERS_SZ) return (Cell*)(SHADOW + (a - ARENA) / 8 * 64);
  u64 g0 = (u64)&__data_start & ~7ull;
  if (a - g0 < (u64)&_end - g0) return (Cell*)(GSHADOW + (a - g0) / 8 * 64);
  return nullptr;
}
INL bool in_heap(u64 a) { return a - ARENA < STK_BASE - ARENA; }
INL u8* hstate(u64 a) { return (u8*)(HSH + (a - ARENA) / 8); }
enum { H_NONE = 0, H_FREED = 9, H_RED = 10, H_POISON = 11, H_NORACE = 0x40 };

struct Hdr { u64 size, base; u32 magic; u8 kind; u8 state; u16 tid; u64 serial : 56, al : 8; u32 apc, fpc; u64 fpad; };  // 48 bytes, directly before user data
static_assert(sizeof(Hdr) == 48, "");
enum { K_MALLOC = 1, K_NEW = 2 };
static Hdr* find_hdr(u64 a);

static void bad_heap(u64 a, unsigned size, bool w, u64 pc, u8 s) {
  Hdr* h = find_hdr(a);
  violation(s == H_FREED ? "use-after-free" : s == H_POISON ? "use-after-lifetime" : "heap-buffer-overflow", pc, h ? (s == H_FREED ? h->fpc : h->apc) : 0,
            "%s of %u bytes at 0x%llx: %s (block of %llu bytes, offset %lld; allocated at 0x%x by T%d, released at 0x%x)", w ? "write" : "read", size, (unsigned long long)a,
            s == H_FREED ? "memory already released" : s == H_POISON ? "object lifetime over" : "outside any live block",
            h ? (unsigned long long)h->size : 0, h ? (long long)(a - (u64)(h + 1)) : 0, h ? h->apc : 0, h ? h->tid : -1, h ? h->fpc : 0);
}
static void inval_loc(u64 a8, u8 mask);
INL void cell_reset(Cell* c) { if (UNLIKELY(c->gen != g.gen)) { c->gen = g.gen; c->n = 0; c->hasatomic = 0; c->rr = 0; } }

static void race(Thread* t, const Entry& x, u64 a, u8 mask, u8 fl, u64 pc) {
  violation("data-race", pc, x.pc, "%s%s by T%d at 0x%llx (mask %02x) is unordered with earlier %s%s by T%d", (fl & E_A) ? "atomic " : "", (fl & E_W) ? "write" : "read", t->id,
            (unsigned long long)a, mask, (x.fl & E_A) ? "atomic " : "", (x.fl & E_W) ? "write" : "read", x.tid);
}
static void cell_access(Thread* t, Cell* c, u64 a, u8 mask, u8 fl, u64 pc) {
  cell_reset(c);
  u32 ep = t->vc.c[t->id];
  int own = -1;
  for (int i = 0; i < c->n; i++) {
    Entry& x = c->e[i];
    if (x.tid == t->id) { if (x.mask == mask && (x.fl == fl)) own = i; continue; }
    if (!(x.mask & mask)) continue;
    if (!((x.fl | fl) & E_W)) continue;
    if ((x.fl & E_A) && (fl & E_A)) continue;
    if (x.epoch > t->vc.c[x.tid]) race(t, x, a, mask, fl, pc);
  }
  g.races++;
  if ((fl & (E_W | E_A)) == E_W && (c->hasatomic & mask)) { inval_loc(a & ~7ull, mask); c->hasatomic &= ~mask; }
  if (own >= 0) { c->e[own].epoch = ep; c->e[own].pc = (u32)pc; return; }
  if ((fl & E_W) && !(fl & E_A)) {  // a plain write supersedes everything ordered before it that it covers
    int k = 0;
    for (int i = 0; i < c->n; i++) { Entry& x = c->e[i]; if ((x.mask & ~mask) == 0) continue; c->e[k++] = x; }
    c->n = k;
  }
  Entry ne{ep, (u32)pc, (u8)t->id, mask, fl, 0};
  if (c->n < 4) { c->e[c->n++] = ne; return; }
  // evict: prefer an entry ordered before us (own or HB), reads first
  int v = -1;
  for (int i = 0; i < 4; i++) { Entry& x = c->e[i]; if (x.tid == t->id && x.mask == mask && !(x.fl & E_W)) { v = i; break; } }
  if (v < 0) for (int i = 0; i < 4; i++) { Entry& x = c->e[i]; if (x.epoch <= t->vc.c[x.tid] && (!(x.fl & E_W) || (fl & E_W))) { v = i; break; } }
  if (v < 0) v = c->rr++ & 3;
  c->e[v] = ne;
}
static void __attribute__((noinline)) access_slow(Thread* t, u64 a, u64 size, u8 fl, u64 pc, bool heapcheck) {
  u64 end = a + size;
  bool heap = in_heap(a);
  for (u64 x = a & ~7ull; x < end; x += 8) {
    unsigned lo = x < a ? (unsigned)(a - x) : 0, hi = end - x < 8 ? (unsigned)(end - x) : 8;
    u8 mask = (u8)(((1u << (hi - lo)) - 1) << lo);
    if (heap && heapcheck) {
      u8 s = *hstate(x);
      if (s & H_NORACE) { s &= ~H_NORACE; if (s == 0 || s > 8 || hi > s) bad_heap(x + lo, (unsigned)size, fl & E_W, pc, s); continue; }
      if (UNLIKELY(s == 0 || s > 8 || hi > s)) bad_heap(x + lo, (unsigned)size, fl & E_W, pc, s);
    }
    Cell* c = cell_for(x);
    if (c) cell_access(t, c, x + lo, mask, fl, pc);
  }
}
INL void access(u64 a, u64 size, u8 fl, u64 pc) {
  Thread* t = self;
  if (!t || !g.active || t->quiet) return;
  if (UNLIKELY((++g.accesses & 0xFFFFFFF) == 0)) violation("livelock", pc, 0, "268435456 memory accesses without termination");
  if (UNLIKELY(a < 4096)) violation("null-dereference", pc, 0, "%s of %llu bytes at 0x%llx", fl & E_W ? "write" : "read", (unsigned long long)size, (unsigned long long)a);
  access_slow(t, a, size, fl, pc, true);
}

// ------------------------------------------------------------------------------------------------
// atomic locations
INL u32 hash_addr(u64 a) { a *= 0x9E3779B97F4A7C15ull; return (u32)(a >> 40); }
static Loc* find_loc(u64 a, bool create) {
  for (u32 h = hash_addr(a), k = 0; k < NLOC; k++, h++) {
    Loc* l = &locs[h & (NLOC - 1)];
    if (l->gen != g.gen) {
      if (!create) return nullptr;
      if (++g.loc_used > NLOC * 3 / 4) harness_error("too many atomic locations");
      l->gen = g.gen; l->addr = a; l->dead = 1; l->n = 0; l->size = 0;
      return l;
    }
    if (l->addr == a) return l;
  }
  harness_error("location table full");
}
static Store* new_store() {
  if (nstfree) return stfree[--nstfree];
  if (g.st_used >= NSTORE) harness_error("store pool exhausted");
  return &stores[g.st_used++];
}
static void drop_stores(Loc* l) { for (int i = 0; i < l->n; i++) stfree[nstfree++] = l->st[i]; l->n = 0; }
static void inval_loc(u64 a8, u8 mask) {
  for (int i = 0; i < 8; i++) if (mask >> i & 1) { Loc* l = find_loc(a8 + i, false); if (l && !l->dead) { drop_stores(l); l->dead = 1; } }
  // a location starting before the written bytes
  for (int i = 0; i < 8; i++) if (!(mask >> i & 1)) { Loc* l = find_loc(a8 + i, false); if (l && !l->dead) { u8 m = (u8)(((1u << (l->size > 8 ? 8 : l->size)) - 1) << i); if (m & mask) { drop_stores(l); l->dead = 1; } } }
}
INL void rdmem(u64 a, unsigned size, u64 v[2]) {
  v[0] = v[1] = 0;
  switch (size) {
    case 1: v[0] = *(volatile u8*)a; break; case 2: v[0] = *(volatile u16*)a; break;
    case 4: v[0] = *(volatile u32*)a; break; case 8: v[0] = *(volatile u64*)a; break;
    default: v[0] = ((volatile u64*)a)[0]; v[1] = ((volatile u64*)a)[1];
  }
}
INL void wrmem(u64 a, unsigned size, const u64 v[2]) {
  switch (size) {
    case 1: *(volatile u8*)a = (u8)v[0]; break; case 2: *(volatile u16*)a = (u16)v[0]; break;
    case 4: *(volatile u32*)a = (u32)v[0]; break; case 8: *(volatile u64*)a = v[0]; break;
    default: ((volatile u64*)a)[0] = v[0]; ((volatile u64*)a)[1] = v[1];
  }
}
static Store* push_store(Loc* l) {
  if (l->n == HIST) { stfree[nstfree++] = l->st[0]; for (int i = 1; i < HIST; i++) l->st[i - 1] = l->st[i]; l->n--; }
  Store* s = new_store();
  l->st[l->n++] = s;
  memset(s->seen, 0, sizeof s->seen); s->hasrel = 0; s->sc = 0; s->sctime = 0;
  return s;
}
static Loc* get_loc(u64 a, unsigned size, u64 cur[2]) {
  Loc* l = find_loc(a, true);
  rdmem(a, size, cur);
  if (!l->dead && (l->size != size)) {  // mixed-size access: keep only the latest view
    Store* s = l->st[l->n - 1];
    VC rel; u8 hr = s->hasrel; if (hr) vccopy(rel, s->rel);
    drop_stores(l); l->size = (u8)size; s = push_store(l); s->v[0] = cur[0]; s->v[1] = cur[1]; s->hasrel = hr; if (hr) vccopy(s->rel, rel);
  }
  if (l->dead || l->st[l->n - 1]->v[0] != cur[0] || l->st[l->n - 1]->v[1] != cur[1]) {
    drop_stores(l); l->dead = 0; l->size = (u8)size;
    Store* s = push_store(l); s->v[0] = cur[0]; s->v[1] = cur[1];
    Cell* c = cell_for(a);
    if (c) { cell_reset(c); u32 m = size >= 8 ? 0xFF : ((1u << size) - 1) << (a & 7); c->hasatomic |= (u8)m; }
  }
  return l;
}
enum { RLX = 0, CON = 1, ACQ = 2, REL = 3, AR = 4, SC = 5 };
INL bool is_acq(int m) { return m == CON || m == ACQ || m == AR || m == SC; }
INL bool is_rel(int m) { return m == REL || m == AR || m == SC; }

INL void epoch_inc(Thread* t) { t->vc.c[t->id]++; }
static void acquire_from(Thread* t, Store* s, int mo) {
  if (!s->hasrel) return;
  if (is_acq(mo)) vcjoin(t->vc, s->rel);
  else { if (!t->has_acq) { memset(&t->acq_pend, 0, sizeof(VC)); t->has_acq = 1; } vcjoin(t->acq_pend, s->rel); }
}
INL void mark_seen(Thread* t, Store* s) { if (!s->seen[t->id]) s->seen[t->id] = t->vc.c[t->id]; }

static void do_load(Thread* t, u64 a, unsigned size, int mo, u64 out[2]) {
  u64 cur[2]; Loc* l = get_loc(a, size, cur);
  int pick = l->n - 1;
  if (g.stalep && l->n > 1 && t->stalerun < 3 && permille(g.stalep)) {
    int floor = 0;
    for (int i = l->n - 1; i > 0; i--) {
      Store* s = l->st[i]; bool hb = false;
      for (int k = 0; k < g.nthr && !hb; k++) {
        u32 e = s->seen[k]; if (!e) continue;
        if (e <= t->vc.c[k] || e <= t->scview.c[k]) hb = true;
        if (mo == SC && e <= g.scvc.c[k]) hb = true;
      }
      if (s->sc && (mo == SC || s->sctime < t->last_scfence)) hb = true;
      if (hb) { floor = i; break; }
    }
    if (floor < l->n - 1) {
      pick = floor + (int)rn((u32)(l->n - floor));
      if (pick != l->n - 1) { g.stale++; t->stalerun++; mix(0x5151 + pick); TRACE("   STALE read of 0x%llx (%d newer)", (unsigned long long)a, l->n - 1 - pick); } else t->stalerun = 0;
    }
  } else t->stalerun = 0;
  Store* s = l->st[pick];
  out[0] = s->v[0]; out[1] = s->v[1];
  mark_seen(t, s);
  if (mo == SC) s->sc = 1, s->sctime = s->sctime ? s->sctime : g.steps;
  acquire_from(t, s, mo);
}
static void do_store(Thread* t, u64 a, unsigned size, int mo, const u64 v[2]) {
  u64 cur[2]; Loc* l = get_loc(a, size, cur);
  Store* s = push_store(l);
  s->v[0] = v[0]; s->v[1] = v[1];
  wrmem(a, size, v);
  rdmem(a, size, s->v);
  mark_seen(t, s);
  if (is_rel(mo)) { s->hasrel = 1; vccopy(s->rel, t->vc); epoch_inc(t); }
  else if (t->has_relf) { s->hasrel = 1; vccopy(s->rel, t->relf); }
  if (mo == SC) { s->sc = 1; s->sctime = g.steps; }
}
// read-modify-write: fn computes new value
static void rmw_begin(Thread* t, Loc*& l, Store*& prev, u64 a, unsigned size, u64 cur[2]) { l = get_loc(a, size, cur); prev = l->st[l->n - 1]; (void)t; }
static void rmw_commit(Thread* t, Loc* l, Store* prev, u64 a, unsigned size, int mo, const u64 v[2]) {
  mark_seen(t, prev);
  acquire_from(t, prev, mo);
  u8 hr = prev->hasrel; VC rel; if (hr) vccopy(rel, prev->rel);
  Store* s = push_store(l);
  s->v[0] = v[0]; s->v[1] = v[1];
  wrmem(a, size, v); rdmem(a, size, s->v);
  mark_seen(t, s);
  if (hr) { s->hasrel = 1; vccopy(s->rel, rel); }
  if (is_rel(mo)) { if (!s->hasrel) { s->hasrel = 1; memset(&s->rel, 0, sizeof(VC)); } vcjoin(s->rel, t->vc); epoch_inc(t); }
  else if (t->has_relf) { if (!s->hasrel) { s->hasrel = 1; memset(&s->rel, 0, sizeof(VC)); } vcjoin(s->rel, t->relf); }
  if (mo == SC) { s->sc = 1; s->sctime = g.steps; }
}
static void do_fence(int mo) {
  Thread* t = self;
  if (is_acq(mo) && t->has_acq) { vcjoin(t->vc, t->acq_pend); t->has_acq = 0; }
  if (mo == SC) { vcjoin(t->scview, g.scvc); vcjoin(g.scvc, t->vc); t->last_scfence = g.steps; }
  if (is_rel(mo)) { vccopy(t->relf, t->vc); t->has_relf = 1; epoch_inc(t); }
}
// generic acq/rel objects (mutexes, once, guards, exception refcounts)
static Sync* get_sync(u64 a) {
  for (u32 h = hash_addr(a), k = 0; k < NSYNC; k++, h++) {
    Sync* s = &syncs[h & (NSYNC - 1)];
    if (s->gen != g.gen) { if (++g.sync_used > NSYNC * 3 / 4) harness_error("too many sync objects"); s->gen = g.gen; s->addr = a; memset(&s->vc, 0, sizeof(VC)); return s; }
    if (s->addr == a) return s;
  }
  harness_error("sync table full");
}
INL void sync_acq(u64 a) { vcjoin(self->vc, get_sync(a)->vc); }
INL void sync_rel(u64 a) { vcjoin(get_sync(a)->vc, self->vc); epoch_inc(self); }

// ------------------------------------------------------------------------------------------------
// __tsan entry points
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) { Thread* t = self; if (!t) return; if (t->depth < SHSTK && t->depth >= 0) t->sh[t->depth] = (u32)(u64)pc; t->depth++; }
void __tsan_func_exit() { Thread* t = self; if (t) t->depth--; }
#define RW(n) \
  void __tsan_read##n(void* a) { access((u64)a, n, 0, RETPC); } \
  void __tsan_write##n(void* a) { access((u64)a, n, E_W, RETPC); } \
  void __tsan_volatile_read##n(void* a) { access((u64)a, n, 0, RETPC); } \
  void __tsan_volatile_write##n(void* a) { access((u64)a, n, E_W, RETPC); } \
  void __tsan_unaligned_read##n(void* a) { access((u64)a, n, 0, RETPC); } \
  void __tsan_unaligned_write##n(void* a) { access((u64)a, n, E_W, RETPC); } \
  void __tsan_unaligned_volatile_read##n(void* a) { access((u64)a, n, 0, RETPC); } \
  void __tsan_unaligned_volatile_write##n(void* a) { access((u64)a, n, E_W, RETPC); } \
  void __tsan_read##n##_pc(void* a, void* pc) { access((u64)a, n, 0, (u64)pc); } \
  void __tsan_write##n##_pc(void* a, void* pc) { access((u64)a, n, E_W, (u64)pc); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { if (n) access((u64)a, n, 0, RETPC); }
void __tsan_write_range(void* a, size_t n) { if (n) access((u64)a, n, E_W, RETPC); }
void __tsan_vptr_update(void** a, void*) { access((u64)a, 8, E_W, RETPC); }
void __tsan_vptr_read(void** a) { access((u64)a, 8, 0, RETPC); }
void __tsan_acquire(void*) {}
void __tsan_release(void*) {}

// the harness objects' calls to memcpy & co are redirected here with objcopy --redefine-sym
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n) { access((u64)s, n, 0, RETPC); access((u64)d, n, E_W, RETPC); } return memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n) { access((u64)s, n, 0, RETPC); access((u64)d, n, E_W, RETPC); } return memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n) access((u64)d, n, E_W, RETPC); return memset(d, c, n); }

#define AT_PRE(fl, what) \
  g.atomics++; sched(); access_slow(self, (u64)a, sizeof(*a), (fl) | E_A, RETPC, true); mix(((u64)self->id << 56) ^ (u64)a ^ (what)); TRACE("%s 0x%llx pc=0x%llx", #what, (unsigned long long)(u64)a, (unsigned long long)RETPC)
#define NULLCHK(a) if (UNLIKELY((u64)(a) < 4096)) violation("null-dereference", RETPC, 0, "atomic access at 0x%llx", (unsigned long long)(u64)(a))
enum { op_load = 1, op_store, op_xchg, op_rmw, op_cas };
#define ATOMIC(N, T) \
T __tsan_atomic##N##_load(const volatile T* a, int mo) { \
  if (!on_loud()) return __atomic_load_n(a, __ATOMIC_SEQ_CST); \
  NULLCHK(a); AT_PRE(0, op_load); u64 v[2]; do_load(self, (u64)a, sizeof(T), mo, v); T r; xcopy(&r, v, sizeof r); spin_hint((u64)a, false); return r; } \
void __tsan_atomic##N##_store(volatile T* a, T x, int mo) { \
  if (!on_loud()) { __atomic_store_n(a, x, __ATOMIC_SEQ_CST); return; } \
  NULLCHK(a); AT_PRE(E_W, op_store); u64 v[2] = {0, 0}; xcopy(v, &x, sizeof x); do_store(self, (u64)a, sizeof(T), mo, v); self->spincnt = 0; } \
T __tsan_atomic##N##_exchange(volatile T* a, T x, int mo) { \
  if (!on_loud()) return __atomic_exchange_n(a, x, __ATOMIC_SEQ_CST); \
  NULLCHK(a); AT_PRE(E_W, op_xchg); Loc* l; Store* p; u64 c[2], v[2] = {0, 0}; rmw_begin(self, l, p, (u64)a, sizeof(T), c); xcopy(v, &x, sizeof x); \
  T r; xcopy(&r, c, sizeof r); rmw_commit(self, l, p, (u64)a, sizeof(T), mo, v); spin_hint((u64)a, r != x); return r; } \
T __tsan_atomic##N##_fetch_add(volatile T* a, T x, int mo) { RMWBODY(N, T, c0 + x, __atomic_fetch_add) } \
T __tsan_atomic##N##_fetch_sub(volatile T* a, T x, int mo) { RMWBODY(N, T, c0 - x, __atomic_fetch_sub) } \
T __tsan_atomic##N##_fetch_and(volatile T* a, T x, int mo) { RMWBODY(N, T, c0 & x, __atomic_fetch_and) } \
T __tsan_atomic##N##_fetch_or(volatile T* a, T x, int mo) { RMWBODY(N, T, c0 | x, __atomic_fetch_or) } \
T __tsan_atomic##N##_fetch_xor(volatile T* a, T x, int mo) { RMWBODY(N, T, c0 ^ x, __atomic_fetch_xor) } \
T __tsan_atomic##N##_fetch_nand(volatile T* a, T x, int mo) { RMWBODY(N, T, ~(c0 & x), __atomic_fetch_nand) } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T d, int mo, int fmo) { return CASBODY(N, T, false) } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T d, int mo, int fmo) { return CASBODY(N, T, true) } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T ex, T d, int mo, int fmo) { T* e = &ex; CASBODY(N, T, false); return ex; }
#define RMWBODY(N, T, EXPR, BUILTIN) \
  if (!on_loud()) return BUILTIN(a, x, __ATOMIC_SEQ_CST); \
  NULLCHK(a); AT_PRE(E_W, op_rmw); Loc* l; Store* p; u64 c[2], v[2] = {0, 0}; rmw_begin(self, l, p, (u64)a, sizeof(T), c); T c0; xcopy(&c0, c, sizeof c0); \
  T n = (T)(EXPR); xcopy(v, &n, sizeof n); rmw_commit(self, l, p, (u64)a, sizeof(T), mo, v); spin_hint((u64)a, n != c0); return c0;
#define CASBODY(N, T, WEAK) ({ int res_; \
  if (!on_loud()) res_ = __atomic_compare_exchange_n(a, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  else { NULLCHK(a); AT_PRE(E_W, op_cas); Loc* l; Store* p; u64 c[2], v[2] = {0, 0}; rmw_begin(self, l, p, (u64)a, sizeof(T), c); T c0; xcopy(&c0, c, sizeof c0); \
    if (c0 == *e && !(WEAK && g.spurp && self->casfail < 2 && permille(g.spurp) && ++self->casfail && ++g.spur)) { xcopy(v, &d, sizeof d); rmw_commit(self, l, p, (u64)a, sizeof(T), mo, v); self->casfail = 0; self->spincnt = 0; res_ = 1; } \
    else { mark_seen(self, p); acquire_from(self, p, fmo); if (fmo == SC) { p->sc = 1; if (!p->sctime) p->sctime = g.steps; } *e = c0; spin_hint((u64)a, false); res_ = 0; } mix(res_ + 77); } res_; });
ATOMIC(8, u8) ATOMIC(16, u16) ATOMIC(32, u32) ATOMIC(64, u64)
#pragma GCC diagnostic push
void __tsan_atomic_thread_fence(int mo) { if (!on_loud()) { __atomic_thread_fence(__ATOMIC_SEQ_CST); return; } g.atomics++; sched(); do_fence(mo); }
void __tsan_atomic_signal_fence(int) { __asm__ volatile("" ::: "memory"); }
#pragma GCC diagnostic pop
}

// ------------------------------------------------------------------------------------------------
// heap
static u64 pers_free[40];
static void early_init();
static Hdr* find_hdr(u64 a) {  // walk back over header-sized steps
  if (!in_heap(a)) return nullptr;
  u64 lo = a > (1ull << 16) + ARENA ? a - (1ull << 16) : ARENA;
  for (u64 x = a & ~15ull; x >= lo; x -= 16) { Hdr* h = (Hdr*)x; if (h->magic == 0xA110CA7E && h->base <= x && h->base > lo - 4096 && x >= ARENA) { if ((u64)(h + 1) <= a) return h; } if (x < ARENA + 64) break; }
  return nullptr;
}
static void* xalloc(size_t n, size_t al, u8 kind, u64 pc) {
  if (UNLIKELY(!g.inited)) early_init();
  bool ex = self && g.active;
  if (al < 16) al = 16;
  u64 p;
  u64 need = (n + 15) & ~15ull; if (!need) need = 16;
  if (!ex) {
    int c = 5; while ((1ull << c) < need + sizeof(Hdr) + al) c++;
    u64 blk;
    if (pers_free[c] && al == 16) { blk = pers_free[c]; pers_free[c] = *(u64*)blk; }
    else { blk = g.pers_top; g.pers_top += 1ull << c; if (g.pers_top > ARENA + PERS_SZ) { static const char m[] = "vrt: persistent arena exhausted\n"; (void)!write(2, m, sizeof m - 1); die(3); } }
    p = (blk + sizeof(Hdr) + al - 1) & ~(u64)(al - 1);
    Hdr* h = (Hdr*)p - 1; h->base = blk; h->size = n; h->magic = 0xA110CA7E; h->kind = kind; h->state = 1; h->tid = (u16)c; h->serial = 0; h->apc = (u32)pc; h->fpc = 0;
    u8* s = hstate(p);
    for (u64 i = 0; i < need / 8; i++) s[i] = i * 8 + 8 <= n ? 8 : i * 8 < n ? (u8)(n - i * 8) : H_RED;
    return (void*)p;
  }
  u64 b = g.ex_top;
  p = (b + sizeof(Hdr) + al - 1) & ~(u64)(al - 1);
  g.ex_top = p + need + 16;   // trailing red zone
  if (g.ex_top > STK_BASE) violation("runaway-allocation", pc, 0, "more than %llu bytes allocated in one execution", (unsigned long long)HEAP_SZ);
  Hdr* h = (Hdr*)p - 1; h->base = b; h->size = n; h->magic = 0xA110CA7E; h->kind = kind; h->state = 1; h->tid = (u16)self->id; h->serial = ++g.serial; h->apc = (u32)pc; h->fpc = 0;
  if (self->depth > 0 && kind == K_NEW) { int d = self->depth < SHSTK ? self->depth : SHSTK; h->fpad = self->sh[d - 1] | (d > 1 ? (u64)self->sh[d - 2] << 32 : 0); } else h->fpad = 0;
  u8* s = hstate(p);
  u8 fl = self->exc_alloc ? H_NORACE : 0;
  for (u64 i = 0; i < need / 8; i++) s[i] = (i * 8 + 8 <= n ? 8 : i * 8 < n ? (u8)(n - i * 8) : H_RED) | fl;
  memset((void*)p, 0xBE, n);
  if (kind == K_NEW) { g.live_new++; g.live_bytes += (i64)n; }
  return (void*)p;
}
static void xfree(void* q, u8 kind, size_t sz, u64 pc, size_t al = 0) {
  if (!q) return;
  u64 p = (u64)q;
  if (!in_heap(p)) { if (on()) violation("bad-free", pc, 0, "release of 0x%llx, which was never allocated", (unsigned long long)p); return; }
  Hdr* h = (Hdr*)p - 1;
  bool ex = p >= EXEC_BASE;
  if (h->magic != 0xA110CA7E || h->state != 1) {
    if (self && g.active && ex) violation(h->magic == 0xA110CA7E ? "double-free" : "bad-free", pc, h->magic == 0xA110CA7E ? h->fpc : 0, "release of 0x%llx (%s)", (unsigned long long)p, h->magic == 0xA110CA7E ? "already released" : "not the start of a block");
    return;
  }
  if (self && g.active && ex) {
    if (h->kind != kind) violation("alloc-dealloc-mismatch", pc, h->apc, "block allocated with %s released with %s", h->kind == K_NEW ? "operator new" : "malloc", kind == K_NEW ? "operator delete" : "free");
    if (sz && sz != h->size) violation("size-mismatch", pc, h->apc, "sized delete of %llu bytes for a block of %llu bytes", (unsigned long long)sz, (unsigned long long)h->size);
    if (kind == K_NEW && (h->al ? 1ull << (h->al - 1) : 0) != al) violation("alloc-dealloc-mismatch", pc, h->apc, "block allocated with alignment %llu (0: none given) released with alignment %llu", h->al ? 1ull << (h->al - 1) : 0ull, (unsigned long long)al);
    if (kind == K_NEW && !self->quiet && !self->exc_alloc) { if (h->size) access_slow(self, p, h->size, E_W, pc, true); }
  }
  h->state = 2; h->fpc = (u32)pc;
  u64 need = (h->size + 15) & ~15ull; if (!need) need = 16;
  u8* s = hstate(p);
  if (!ex) {
    memset(s, H_NONE, need / 8);
    int c = h->tid; u64 blk = h->base;
    if (blk + sizeof(Hdr) == p || true) { h->magic = 0; *(u64*)blk = pers_free[c]; pers_free[c] = blk; }
    return;
  }
  if (h->kind == K_NEW) { g.live_new--; g.live_bytes -= (i64)h->size; }
  // forget atomic locations inside the block
  if (self && g.active) for (u64 x = p; x < p + h->size; x += 8) { Cell* c = cell_for(x); if (c && c->gen == g.gen && c->hasatomic) { inval_loc(x, c->hasatomic); c->hasatomic = 0; } }
  memset(s, H_FREED, need / 8);
  memset(q, 0xDD, h->size);
}
extern "C" {
void* malloc(size_t n) { return xalloc(n, 16, K_MALLOC, RETPC); }
void free(void* p) { xfree(p, K_MALLOC, 0, RETPC); }
void* calloc(size_t a, size_t b) { size_t n = a * b; void* p = xalloc(n, 16, K_MALLOC, RETPC); __builtin_memset(p, 0, n); return p; }
void* realloc(void* q, size_t n) {
  if (!q) return xalloc(n, 16, K_MALLOC, RETPC);
  void* p = xalloc(n, 16, K_MALLOC, RETPC); Hdr* h = (Hdr*)q - 1; __builtin_memcpy(p, q, h->size < n ? h->size : n); xfree(q, K_MALLOC, 0, RETPC); return p;
}
void* memalign(size_t al, size_t n) { return xalloc(n, al, K_MALLOC, RETPC); }
void* aligned_alloc(size_t al, size_t n) { return xalloc(n, al, K_MALLOC, RETPC); }
int posix_memalign(void** r, size_t al, size_t n) { *r = xalloc(n, al, K_MALLOC, RETPC); return 0; }
void* valloc(size_t n) { return xalloc(n, 4096, K_MALLOC, RETPC); }
void* pvalloc(size_t n) { return xalloc((n + 4095) & ~4095ull, 4096, K_MALLOC, RETPC); }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)p - 1)->size : 0; }
}
namespace vrt_throw { void bad_alloc(); }
static void* opnew(size_t n, size_t al, u64 pc, bool nothrow) {
  if (on_loud()) {
    g.nallocs++;
    if (UNLIKELY(g.fail_at > 0) && (g.fail_tid < 0 || g.fail_tid == self->id) && --g.fail_at == 0) { g.fault_fired = true; TRACE("ALLOC FAULT pc=0x%llx", (unsigned long long)pc); if (nothrow) return nullptr; vrt_throw::bad_alloc(); }
  }
  void* r = xalloc(n, al ? al : 16, K_NEW, pc); ((Hdr*)r - 1)->al = al ? (unsigned)__builtin_ctzll(al) + 1 : 0; return r;
}
void* operator new(size_t n) { return opnew(n, 0, RETPC, false); }
void* operator new[](size_t n) { return opnew(n, 0, RETPC, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return opnew(n, 0, RETPC, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return opnew(n, 0, RETPC, true); }
void* operator new(size_t n, std::align_val_t a) { return opnew(n, (size_t)a, RETPC, false); }
void* operator new[](size_t n, std::align_val_t a) { return opnew(n, (size_t)a, RETPC, false); }
void operator delete(void* p) noexcept { xfree(p, K_NEW, 0, RETPC); }
void operator delete[](void* p) noexcept { xfree(p, K_NEW, 0, RETPC); }
void operator delete(void* p, size_t n) noexcept { xfree(p, K_NEW, n, RETPC); }
void operator delete[](void* p, size_t) noexcept { xfree(p, K_NEW, 0, RETPC); }
void operator delete(void* p, std::align_val_t al) noexcept { xfree(p, K_NEW, 0, RETPC, (size_t)al); }
void operator delete[](void* p, std::align_val_t al) noexcept { xfree(p, K_NEW, 0, RETPC, (size_t)al); }
void operator delete(void* p, size_t n, std::align_val_t al) noexcept { xfree(p, K_NEW, n, RETPC, (size_t)al); }
void operator delete[](void* p, size_t, std::align_val_t al) noexcept { xfree(p, K_NEW, 0, RETPC, (size_t)al); }
void operator delete(void* p, const std::nothrow_t&) noexcept { xfree(p, K_NEW, 0, RETPC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { xfree(p, K_NEW, 0, RETPC); }

// exception objects: reference counts live in libstdc++.so, so their memory is not race-checked
extern "C" {
void* __cxa_allocate_exception(size_t n) noexcept { static void* (*r)(size_t); if (!r) rs(r, "__cxa_allocate_exception"); if (self) self->exc_alloc++; void* p = r(n); if (self) self->exc_alloc--; return p; }
void __cxa_free_exception(void* p) noexcept { static void (*r)(void*); if (!r) rs(r, "__cxa_free_exception"); if (self) self->exc_alloc++; r(p); if (self) self->exc_alloc--; }
void* __cxa_allocate_dependent_exception() noexcept { static void* (*r)(); if (!r) rs(r, "__cxa_allocate_dependent_exception"); if (self) self->exc_alloc++; void* p = r(); if (self) self->exc_alloc--; return p; }
void __cxa_free_dependent_exception(void* p) noexcept { static void (*r)(void*); if (!r) rs(r, "__cxa_free_dependent_exception"); if (self) self->exc_alloc++; r(p); if (self) self->exc_alloc--; }
// std::exception_ptr::_M_addref / _M_release: acq/rel on the exception object
void _ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(void** self_) { if (!r_addref) rs(r_addref, "_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv"); if (on_loud()) { sync_acq((u64)*self_); sync_rel((u64)*self_); } r_addref(self_); }
void _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void** self_) { if (!r_release) rs(r_release, "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"); if (on_loud()) { sync_rel((u64)*self_); sync_acq((u64)*self_); } r_release(self_); }
// the reference a handler holds is given up when the handler ends
void __cxa_end_catch() {
  static void (*r)(); if (!r) rs(r, "__cxa_end_catch");
  if (on_loud()) { std::exception_ptr p = std::current_exception(); if (p) { void* o; __builtin_memcpy(&o, &p, sizeof o); sync_rel((u64)o); sync_acq((u64)o); } }
  r();
}
// destroying a condition variable ends the lifetime of its bytes
void _ZNSt18condition_variableD1Ev(void* p) { if (on_loud()) access((u64)p, 48, E_W, RETPC); }
void _ZNSt18condition_variableD2Ev(void* p) { if (on_loud()) access((u64)p, 48, E_W, RETPC); }
unsigned _ZNSt13random_device9_M_getvalEv(void*) { return on() ? (unsigned)rnd(g.wrng) : 12345u; }
extern int vrt_hardware_concurrency;
int get_nprocs(void) { return vrt_hardware_concurrency; }
unsigned _ZNSt6thread20hardware_concurrencyEv(void) { return (unsigned)vrt_hardware_concurrency; }
int vrt_hardware_concurrency = 3;
}

// ------------------------------------------------------------------------------------------------
// threads
static void thread_finish(Thread* t) {
  t->st = T_DONE;
  // publish for joiners
  for (int i = 0; i < g.nthr; i++) { Thread* x = &g.t[i]; if (x->st == T_BLOCK && ((x->bk == B_JOIN && x->baddr == (u64)t) || (x->bk == B_ALL))) { if (x->bk == B_ALL && others_alive(x)) continue; wake(x); } }
  self = nullptr;
  if (!others_alive(t)) { __atomic_store_n(&g.done, 1, __ATOMIC_RELEASE); fwake(&g.done); return; }
  Thread* n;
  for (;;) {
    g.nthr = g.nthr;
    n = choose_thread(t, false);
    if (n) break;
    if (have_timed()) { fire_deadline(); continue; }
    self = t; all_blocked(t); self = nullptr;
  }
  g.switches++; mix(n->id * 131 + 9);
  __atomic_store_n(&n->go, 1, __ATOMIC_RELEASE); fwake(&n->go);
}
static void key_dtor(void* v) {
  Thread* t = (Thread*)v;
  if (t->realdead < 2) { t->realdead++; pthread_setspecific(exitkey, t); return; }  // run as late as possible
  thread_finish(t);
}
static u8 thr_altstk[MAXT][32 << 10];
static void* thread_main(void* v) {
  Thread* t = (Thread*)v;
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = thr_altstk[t->id]; ss.ss_size = sizeof thr_altstk[0]; sigaltstack(&ss, nullptr);
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) fwait(&t->go, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
  self = t;
  pthread_setspecific(exitkey, t);
  t->ret = t->fn(t->arg);
  return t->ret;
}
static Thread* new_thread(void* (*fn)(void*), void* arg) {
  if (g.nthr >= MAXT) harness_error("too many threads in one execution");
  Thread* t = &g.t[g.nthr];
  memset((void*)t, 0, sizeof *t);
  t->id = g.nthr++;
  if (g.nthr > g.maxthr) g.maxthr = g.nthr;
  t->st = T_RUN; t->fn = fn; t->arg = arg;
  t->prio = 1000000 + (rnd(g.rng) >> 44);
  t->vc.c[t->id] = 1;
  if (self) { vcjoin(t->vc, self->vc); t->vc.c[t->id] = 1; epoch_inc(self); }
  pthread_attr_t at; pthread_attr_init(&at);
  pthread_attr_setstack(&at, (void*)(STK_BASE + (u64)t->id * STACK), STACK);
  int r = r_create(&t->real, &at, thread_main, t);
  pthread_attr_destroy(&at);
  if (r) harness_error("pthread_create failed");
  return t;
}
static Thread* by_real(pthread_t p) { for (int i = 0; i < g.nthr; i++) if (g.t[i].real == p && !g.t[i].joined) return &g.t[i]; return nullptr; }
extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  if (!on()) { if (!r_create) rs(r_create, "pthread_create"); return r_create(out, at, fn, arg); }
  sched();
  Thread* t = new_thread(fn, arg);
  *out = t->real;
  TRACE("create T%d", t->id);
  sched();
  return 0;
}
int pthread_join(pthread_t p, void** ret) {
  if (!on()) { if (!r_join) rs(r_join, "pthread_join"); return r_join(p, ret); }
  sched();
  Thread* t = by_real(p);
  if (!t) violation("bad-join", RETPC, 0, "join of a thread that is not joinable");
  if (t == self) violation("bad-join", RETPC, 0, "a thread joins itself");
  while (t->st != T_DONE) block(B_JOIN, (u64)t, 0);
  vcjoin(self->vc, t->vc);
  r_join(p, nullptr); t->joined = 1;
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t p) {
  if (!on()) { if (!r_detach) rs(r_detach, "pthread_detach"); return r_detach(p); }
  Thread* t = by_real(p); if (t) t->detached = 1; return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!on_loud()) { if (self) return 0; if (!r_mlock) rs(r_mlock, "pthread_mutex_lock"); return r_mlock(m); }
  sched(); access((u64)m, 4, E_W | E_A, RETPC); mix((u64)m ^ 11);
  TRACE("lock 0x%llx pc=0x%llx", (unsigned long long)(u64)m, (unsigned long long)RETPC);
  if (m->__data.__lock && m->__data.__owner == self->id + 1) {
    if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { m->__data.__count++; return 0; }
    violation("deadlock", RETPC, 0, "thread locks a mutex it already holds");
  }
  while (m->__data.__lock) block(B_MUTEX, (u64)m, 0);
  m->__data.__lock = 1; m->__data.__owner = self->id + 1; m->__data.__count = 1;
  sync_acq((u64)m);
  self->spincnt = 0;
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!on_loud()) { if (self) return 0; if (!r_mtry) rs(r_mtry, "pthread_mutex_trylock"); return r_mtry(m); }
  sched(); access((u64)m, 4, E_W | E_A, RETPC); mix((u64)m ^ 12);
  if (m->__data.__lock && m->__data.__owner == self->id + 1 && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { m->__data.__count++; return 0; }
  if (m->__data.__lock) { spin_hint((u64)m, false); return EBUSY; }
  m->__data.__lock = 1; m->__data.__owner = self->id + 1; m->__data.__count = 1;
  sync_acq((u64)m);
  return 0;
}
static void mutex_release(pthread_mutex_t* m, u64 pc) {
  if (!m->__data.__lock || m->__data.__owner != self->id + 1) violation("bad-unlock", pc, 0, "unlock of a mutex the thread does not hold");
  if (--m->__data.__count > 0) return;
  sync_rel((u64)m);
  m->__data.__lock = 0; m->__data.__owner = 0; m->__data.__count = 0;
  for (int i = 0; i < g.nthr; i++) { Thread* x = &g.t[i]; if (x->st == T_BLOCK && x->bk == B_MUTEX && x->baddr == (u64)m) wake(x); }
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!on_loud()) { if (self) return 0; if (!r_munlock) rs(r_munlock, "pthread_mutex_unlock"); return r_munlock(m); }
  sched(); access((u64)m, 4, E_W | E_A, RETPC); mix((u64)m ^ 13);
  TRACE("unlock 0x%llx", (unsigned long long)(u64)m);
  mutex_release(m, RETPC);
  self->spincnt = 0;
  sched();
  return 0;
}
static u64 REAL_BASE = 1700000000ull * 1000000000ull, MONO_BASE = 1000ull * 1000000000ull;
static u64 deadline_of(const struct timespec* ts, clockid_t c) {
  i64 v = (i64)ts->tv_sec * 1000000000ll + ts->tv_nsec; i64 b = (i64)(c == CLOCK_REALTIME ? REAL_BASE : MONO_BASE);
  if (ts->tv_sec > 9000000000ll) return 1ull << 62;
  return v <= b ? 1 : (u64)(v - b) ? (u64)(v - b) : 1;
}
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline, u64 pc) {
  sched(); access((u64)c, 4, E_W | E_A, pc); access((u64)m, 4, E_W | E_A, pc); mix((u64)c ^ 14);
  TRACE("cond_wait 0x%llx", (unsigned long long)(u64)c);
  mutex_release(m, pc);
  int timedout = 0;
  if (g.spurp && permille(g.spurp / 2)) { g.spur++; sched(true); }
  else if (deadline && deadline <= g.now) { timedout = 1; sched(); }
  else { block(B_COND, (u64)c, deadline); timedout = self->timedout; }
  while (m->__data.__lock) block(B_MUTEX, (u64)m, 0);
  access((u64)m, 4, E_W | E_A, pc);
  m->__data.__lock = 1; m->__data.__owner = self->id + 1; m->__data.__count = 1;
  sync_acq((u64)m);
  return timedout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!on_loud()) { if (!r_cwait) rs(r_cwait, "pthread_cond_wait"); return r_cwait(c, m); } return cwait(c, m, 0, RETPC); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!on_loud()) return ETIMEDOUT; return cwait(c, m, deadline_of(ts, CLOCK_REALTIME), RETPC); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { if (!on_loud()) return ETIMEDOUT; return cwait(c, m, deadline_of(ts, k), RETPC); }
int pthread_cond_signal(pthread_cond_t* c) {
  if (!on_loud()) { if (self) return 0; if (!r_csig) rs(r_csig, "pthread_cond_signal"); return r_csig(c); }
  sched(); access((u64)c, 4, E_W | E_A, RETPC); mix((u64)c ^ 15);
  TRACE("cond_signal 0x%llx", (unsigned long long)(u64)c);
  Thread* w[MAXT]; int n = 0;
  for (int i = 0; i < g.nthr; i++) { Thread* x = &g.t[i]; if (x->st == T_BLOCK && x->bk == B_COND && x->baddr == (u64)c) w[n++] = x; }
  if (n) wake(w[rn(n)]);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!on_loud()) { if (self) return 0; if (!r_cbc) rs(r_cbc, "pthread_cond_broadcast"); return r_cbc(c); }
  sched(); access((u64)c, 4, E_W | E_A, RETPC); mix((u64)c ^ 16);
  for (int i = 0; i < g.nthr; i++) { Thread* x = &g.t[i]; if (x->st == T_BLOCK && x->bk == B_COND && x->baddr == (u64)c) wake(x); }
  return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
  if (!on_loud()) { if (self) { if (*o != 2) { *o = 1; try { fn(); } catch (...) { *o = 0; throw; } *o = 2; } return 0; } if (!r_once) rs(r_once, "pthread_once"); return r_once(o, fn); }
  sched();
  for (;;) {
    if (*o == 2) { sync_acq((u64)o); return 0; }
    if (*o == 0) {
      *o = 1;
      try { fn(); } catch (...) { *o = 0; for (int i = 0; i < g.nthr; i++) { Thread* x = &g.t[i]; if (x->st == T_BLOCK && x->bk == B_ONCE && x->baddr == (u64)o) wake(x); } throw; }
      *o = 2; sync_rel((u64)o);
      for (int i = 0; i < g.nthr; i++) { Thread* x = &g.t[i]; if (x->st == T_BLOCK && x->bk == B_ONCE && x->baddr == (u64)o) wake(x); }
      return 0;
    }
    block(B_ONCE, (u64)o, 0);
  }
}
int __cxa_guard_acquire(u8* gd) {
  for (;;) {
    if (gd[0]) { if (on_loud()) sync_acq((u64)gd); return 0; }
    if (!gd[1]) { gd[1] = 1; if (on_loud()) sync_acq((u64)gd); return 1; }
    if (!on()) return 1;
    block(B_GUARD, (u64)gd, 0);
  }
}
static void guard_wake(u8* gd) { if (on()) for (int i = 0; i < g.nthr; i++) { Thread* x = &g.t[i]; if (x->st == T_BLOCK && x->bk == B_GUARD && x->baddr == (u64)gd) wake(x); } }
void __cxa_guard_release(u8* gd) {
  if (on_loud()) { sync_rel((u64)gd); u64 v[2] = {1, 0}; do_store(self, (u64)gd, 1, REL, v); }
  gd[0] = 1; gd[1] = 0; guard_wake(gd);
}
void __cxa_guard_abort(u8* gd) { gd[1] = 0; guard_wake(gd); }

long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && on()) {
    int op = (int)b & 127 & ~FUTEX_CLOCK_REALTIME;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      sched(); access((u64)a, 4, E_A, RETPC); mix((u64)a ^ 17);
      if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
      u64 dl = 0;
      if (d) { const struct timespec* ts = (const struct timespec*)d; dl = op == FUTEX_WAIT ? g.now + (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec : deadline_of(ts, (b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC); if (!dl) dl = 1; }
      if (g.spurp && permille(g.spurp / 2)) { g.spur++; sched(true); return 0; }
      block(B_FUTEX, (u64)a, dl);
      if (self->timedout) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE) {
      sched(); mix((u64)a ^ 18);
      Thread* w[MAXT]; int k = 0; long done = 0;
      for (int i = 0; i < g.nthr; i++) { Thread* x = &g.t[i]; if (x->st == T_BLOCK && x->bk == B_FUTEX && x->baddr == (u64)a) w[k++] = x; }
      while (k && done < (long)(int)c) { int i = (int)rn(k); wake(w[i]); w[i] = w[--k]; done++; }
      return done;
    }
  }
  long r = rsys6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
int sched_yield(void) {
  if (!on_loud()) { rsys6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); return 0; }
  if (g.strat == 1) self->prio = g.lowprio--;
  g.now += 1000;
  bool other = false; for (int i = 0; i < g.nthr; i++) if (&g.t[i] != self && g.t[i].st == T_RUN) other = true;
  if (!other && have_timed()) fire_deadline(++g.idle_spins < 300);
  sched(permille(900)); return 0;
}
static int vsleep(u64 until) { if (until <= g.now) { sched(); return 0; } block(B_SLEEP, 0, until); return 0; }
int nanosleep(const struct timespec* ts, struct timespec* rem) { if (!on_loud()) { if (!r_nsleep) rs(r_nsleep, "nanosleep"); return r_nsleep(ts, rem); } return vsleep(g.now + (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* ts, struct timespec*) {
  if (!on_loud()) { rsys6(SYS_clock_nanosleep, c, fl, (long)ts, 0, 0, 0); return 0; }
  return vsleep(fl & TIMER_ABSTIME ? deadline_of(ts, c) : g.now + (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec);
}
int usleep(useconds_t us) { if (!on_loud()) return 0; return vsleep(g.now + (u64)us * 1000); }
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!on()) { if (!r_clock) rs(r_clock, "clock_gettime"); return r_clock(c, ts); }
  g.now += 50;
  u64 v = (c == CLOCK_REALTIME ? REAL_BASE : MONO_BASE) + g.now;
  ts->tv_sec = (time_t)(v / 1000000000ull); ts->tv_nsec = (long)(v % 1000000000ull); return 0;
}
}

// ------------------------------------------------------------------------------------------------
// harness API
namespace vrt {
static scenario* all; static int nsc;
scenario::scenario(const char* n, fn_t f, unsigned fl, unsigned w) : name(n), fn(f), flags(fl), weight(w), next(nullptr) {
  scenario** p = &all; while (*p) p = &(*p)->next; *p = this; nsc++;
}
uint32_t choose(uint32_t n) { if (n <= 1) return 0; u32 r = (u32)((rnd(g.wrng) >> 11) % n); mix(r * 31 + n); return r; }
void fail(const char* fmt, ...) {
  char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  violation("oracle", RETPC, 0, "%s", b);
}
void outcome(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(g.outc, sizeof g.outc, fmt, ap); va_end(ap); }
void describe(const char* fmt, ...) { if (g.descn > DESCLEN - 200) return; va_list ap; va_start(ap, fmt); int n = vsnprintf(g.desc + g.descn, DESCLEN - g.descn - 1, fmt, ap); va_end(ap); g.descn += n; if (g.descn > DESCLEN - 2) g.descn = DESCLEN - 2; }
static void lock() { while (__atomic_exchange_n(&S->lock, 1, __ATOMIC_ACQUIRE)) rsys6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
static void unlock() { __atomic_store_n(&S->lock, 0, __ATOMIC_RELEASE); }
static struct { const char* p; int i; } covcache[512];
void cover(const char* label) {
  u32 h = hash_addr((u64)label) & 511;
  for (int k = 0; k < 512; k++, h = (h + 1) & 511) {
    if (covcache[h].p == label) { __atomic_add_fetch(&S->cov[covcache[h].i].n, 1, __ATOMIC_RELAXED); return; }
    if (!covcache[h].p) break;
  }
  lock();
  u64 i = 0; for (; i < S->covn; i++) if (!strcmp(S->cov[i].s, label)) break;
  if (i == S->covn) { if (i == MAXCOV) { unlock(); return; } snprintf(S->cov[i].s, 80, "%s", label); S->covn++; }
  unlock();
  __atomic_add_fetch(&S->cov[i].n, 1, __ATOMIC_RELAXED);
  covcache[h].p = label; covcache[h].i = (int)i;
}
void observed(uint64_t n) { g.nobs += n; }
int tid() { return self ? self->id : -1; }
void point() { if (on_loud()) sched(); }
uint64_t steps() { return g.steps; }
bool controlled() { return true; }
void log(uint32_t k, uint64_t a, uint64_t b, uint64_t c) { if (g.nlog >= NLOG) violation("runaway-events", 0, 0, "more than %d monitored events in one execution", (int)NLOG); event& e = logbuf[g.nlog++]; e.kind = k; e.tid = tid(); e.a = a; e.b = b; e.c = c; g.nobs++; TRACE("event %u %llu %llu %llu", k, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c); }
size_t log_size() { return g.nlog; }
event log_at(size_t i) { return logbuf[i]; }
void quiet_begin() { if (self) self->quiet++; }
void quiet_end() { if (self) self->quiet--; }
void fail_alloc(long n, bool me) { g.fail_at = n; g.fail_tid = me ? tid() : -1; g.fault_fired = false; }
bool alloc_failed() { return g.fault_fired; }
long allocs() { return (long)g.nallocs; }
long live_blocks() { return g.live_new; }
long live_bytes() { return g.live_bytes; }
void lifetime_end(void* p, size_t n) { if (n) access((u64)p, n, E_W, RETPC); }
void poison(void* p, size_t n) { if (on() && in_heap((u64)p)) { access((u64)p, n, E_W, RETPC); for (u64 x = ((u64)p + 7) & ~7ull; x + 8 <= (u64)p + n; x += 8) *hstate(x) = H_POISON; } }
}

// ------------------------------------------------------------------------------------------------
// initialisation and driver
static void early_init() {
  if (g.inited) return;
  g.inited = true;
  xmap(ARENA, ARENA_END - ARENA);
  xmap(SHADOW, (ARENA_END - ARENA) * 8);
  xmap(HSH, (ARENA_END - ARENA) / 8);
  xmap(GSHADOW, (((u64)&_end - ((u64)&__data_start & ~7ull)) + 16) * 8 + 4096);
  g.pers_top = ARENA + 64; g.ex_base = g.ex_top = EXEC_BASE + 64;
}
static void init_late() {
  early_init();
  rs(r_create, "pthread_create"); rs(r_join, "pthread_join"); rs(r_detach, "pthread_detach"); rs(r_mlock, "pthread_mutex_lock"); rs(r_mtry, "pthread_mutex_trylock");
  rs(r_munlock, "pthread_mutex_unlock"); rs(r_cwait, "pthread_cond_wait"); rs(r_csig, "pthread_cond_signal"); rs(r_cbc, "pthread_cond_broadcast"); rs(r_once, "pthread_once");
  rs(r_clock, "clock_gettime"); rs(r_nsleep, "nanosleep");
  pthread_key_create(&exitkey, key_dtor);
  locs = (Loc*)xmap(0, sizeof(Loc) * NLOC); stores = (Store*)xmap(0, sizeof(Store) * NSTORE); stfree = (Store**)xmap(0, sizeof(Store*) * NSTORE);
  syncs = (Sync*)xmap(0, sizeof(Sync) * NSYNC); logbuf = (vrt::event*)xmap(0, sizeof(vrt::event) * NLOG);
  // guard pages at the bottom of each stack
  for (int i = 0; i < MAXT; i++) mprotect((void*)(STK_BASE + (u64)i * STACK), 4096, PROT_NONE);
}
static u8 altstk[64 << 10];
static void record_exec(bool warm);
static void on_signal(int sig, siginfo_t* si, void*) {
  if (reporting) die(78);
  if (self || g.active) {
    u64 a = (u64)si->si_addr;
    if ((sig == SIGSEGV || sig == SIGBUS) && a >= STK_BASE && a < ARENA_END) violation("stack-overflow", 0, 0, "stack exhausted (address 0x%llx)", (unsigned long long)a);
    if (sig == SIGABRT) {
      if (g.cur && (g.cur->flags & vrt::F_TERMINATE)) { snprintf(g.outc, sizeof g.outc, "terminated"); record_exec(false); die(0); }
      violation("abort", 0, 0, "std::terminate / assertion failure / abort");
    }
    violation("crash", 0, 0, "signal %d at address 0x%llx", sig, (unsigned long long)a);
  }
  die(80);
}
static void install_signals() {
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstk; ss.ss_size = sizeof altstk; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGILL, &sa, nullptr); sigaction(SIGTRAP, &sa, nullptr);
}
static void* root_main(void*) {
  g.cur->fn();
  if (!(g.cur->flags & vrt::F_DAEMON) || (g.cur->flags & vrt::F_FORK) == 0) { while (others_alive(self)) block(B_ALL, 0, 0); }
  else { while (others_alive(self)) { block(B_ALL, 0, 0); break; } }
  if (g.cur->flags & vrt::F_DAEMON && others_alive(self)) { g.rootdone = 1; __atomic_store_n(&g.done, 1, __ATOMIC_RELEASE); fwake(&g.done); for (;;) fwait(&self->go, 0); }
  g.rootdone = 1;
  return nullptr;
}
static u64 hstr(const char* s) { u64 h = 1469598103934665603ull; for (; *s; s++) h = (h ^ (u8)*s) * 1099511628211ull; return h; }

static void record_exec(bool warm) {
  if (warm) return;
  ScStat& st = S->sc[g.curi];
#define ADD(f, v) __atomic_add_fetch(&st.f, (u64)(v), __ATOMIC_RELAXED)
  ADD(execs, 1); ADD(steps, g.steps); ADD(accesses, g.accesses); ADD(atomics, g.atomics); ADD(switches, g.switches); ADD(stale, g.stale); ADD(spur, g.spur); ADD(allocs, g.nallocs); ADD(observed, g.nobs); ADD(races_checked, g.races); ADD(faults, g.fault_fired);
  if ((u64)g.nthr > st.maxthreads) st.maxthreads = (u64)g.nthr;
  st.estimate = st.estimate ? (st.estimate * 7 + g.steps) / 8 : g.steps;
  u64 h = g.hash ^ hstr(g.cur->name);
  const u64 nb = sizeof(S->bits) * 8; u64 b = h % nb;
  u64 old = __atomic_fetch_or(&S->bits[b / 64], 1ull << (b & 63), __ATOMIC_RELAXED);
  if (!(old >> (b & 63) & 1)) ADD(distinct, 1);
  if (g.outc[0]) {
    vrt::lock();
    u64 i = 0; for (; i < st.outn; i++) if (!strcmp(st.out[i].s, g.outc)) break;
    if (i < MAXOUT) { if (i == st.outn) { snprintf(st.out[i].s, 120, "%s", g.outc); st.outn++; } st.out[i].n++; } else st.outother++;
    vrt::unlock();
  }
  if (S->nsamp < NSAMP && (g.idx % 7 == 3 || g.idx < 2)) {
    vrt::lock();
    if (S->nsamp < NSAMP) snprintf(S->samp[S->nsamp++], SAMPLEN + 200, "%s #%llu: %.240s steps=%llu switches=%llu threads=%d outcome=%s", g.cur->name, (unsigned long long)g.idx, g.desc, (unsigned long long)g.steps, (unsigned long long)g.switches, g.nthr, g.outc);
    vrt::unlock();
  }
}
static void leak_check() {
  if (g.cur->flags & vrt::F_NOLEAK) return;
  for (u64 x = g.ex_base; x + sizeof(Hdr) < g.ex_top;) {
    // headers are 16-aligned; user data follows
    Hdr* h = (Hdr*)((x + 15) & ~15ull);
    while ((u64)h + sizeof(Hdr) < g.ex_top && !(h->magic == 0xA110CA7E && h->base <= (u64)h && (u64)h - h->base < 4096 + 16)) h = (Hdr*)((u64)h + 16);
    if ((u64)h + sizeof(Hdr) >= g.ex_top) break;
    if (h->state == 1 && h->kind == K_NEW)
      violation("leak", h->fpad & 0xffffffff, h->apc, "block of %llu bytes allocated by T%d was never released (%lld blocks, %lld bytes still live); alloc callers 0x%llx 0x%llx", (unsigned long long)h->size, h->tid, (long long)g.live_new, (long long)g.live_bytes, (unsigned long long)(h->fpad & 0xffffffff), (unsigned long long)(h->fpad >> 32));
    x = (u64)(h + 1) + ((h->size + 15) & ~15ull);
  }
}
// run one execution in this process
static void run_one(const vrt::scenario* s, int si, u64 seed, u64 idx, bool warm) {
  g.cur = s; g.curi = si; g.seed = seed; g.idx = idx;
  u64 k = seed * 0x9E3779B97F4A7C15ull ^ hstr(s->name) ^ (idx * 0xD1B54A32D192ED03ull);
  g.rng = k ^ 0x1234567; rnd(g.rng); g.wrng = k ^ 0x89ABCDEF01ull; rnd(g.wrng);
  g.gen++; g.nthr = 0; g.maxthr = 0;
  memset(&g.scvc, 0, sizeof g.scvc);
  g.steps = g.accesses = g.atomics = g.switches = g.stale = g.spur = g.nallocs = g.races = g.nobs = 0;
  g.now = 1000000; g.limit = (s->flags & vrt::F_BIG) ? 400000 : 40000; g.hash = 1469598103934665603ull; g.fair = 0;
  g.loc_used = g.sync_used = g.st_used = 0; nstfree = 0; g.nlog = 0; g.fail_at = 0; g.fault_fired = false; g.serial = 0; g.live_new = 0; g.live_bytes = 0;
  g.desc[0] = 0; g.descn = 0; g.outc[0] = 0; g.done = 0; g.rootdone = 0; g.lowprio = 900000;
  // strategy
  u32 r = rn(100);
  g.strat = 0; g.swp = 200; g.nchg = 0; g.jumpp = 0; g.idle_spins = 0;
  static const u32 sw[] = {500, 250, 100, 40, 15};
  if (r < 50) { g.swp = sw[rn(5)]; }
  else if (r < 85) {
    g.strat = 1; g.nchg = 1 + (int)rn(5); u64 est = S->sc[si].estimate; if (est < 20) est = 200;
    for (int i = 0; i < g.nchg; i++) g.chg[i] = 1 + rn((u32)(est > 100000 ? 100000 : est));
  } else { g.strat = 2; g.swp = sw[1 + rn(4)]; g.victim = (int)rn(4); u64 est = S->sc[si].estimate; g.victim_until = 50 + rn((u32)(est < 20 ? 200 : est > 100000 ? 100000 : est)); }
  static const u32 sp[] = {0, 0, 60, 200, 400, 700};
  g.stalep = (s->flags & (vrt::F_NOSTALE | vrt::F_SEQ)) ? 0 : sp[rn(6)];
  static const u32 spu[] = {0, 0, 30, 120};
  g.spurp = (s->flags & (vrt::F_NOSPURIOUS | vrt::F_SEQ)) ? 0 : spu[rn(4)];
  static const u32 jp[] = {0, 2, 15, 60};
  g.jumpp = jp[rn(4)];
  u64 top0 = g.ex_top;
  (void)top0;
  g.active = true;
  new_thread(root_main, nullptr);
  Thread* root = &g.t[0];
  __atomic_store_n(&root->go, 1, __ATOMIC_RELEASE); fwake(&root->go);
  while (!__atomic_load_n(&g.done, __ATOMIC_ACQUIRE)) fwait(&g.done, 0);
  if (g.rootdone == 1 && (s->flags & vrt::F_DAEMON) && g.t[0].st != T_DONE) { g.active = false; record_exec(warm); die(0); }
  g.active = false;
  for (int i = 0; i < g.nthr; i++) if (!g.t[i].joined) { r_join(g.t[i].real, nullptr); g.t[i].joined = 1; }
  if (g.t[0].depth != 0) { /* unbalanced entry/exit is harmless */ }
  if (!warm) leak_check();
  record_exec(warm);
  // recycle the execution heap
  u64 keep = g.ex_base;
  if (true) {
    for (u64 x = g.ex_base; x + sizeof(Hdr) < g.ex_top; x += 16) { Hdr* h = (Hdr*)((x + 15) & ~15ull); if (h->magic == 0xA110CA7E && h->base <= (u64)h && (u64)h - h->base < 8192 && (u64)h >= g.ex_base) { u64 e = (u64)(h + 1) + ((h->size + 15) & ~15ull); if (h->state == 1 && e <= g.ex_top) keep = e + 32; if (e > x + 16) x = e - 16; } }
  }
  keep = (keep + 63) & ~63ull;
  // clear header magics and heap state of the recycled part
  if (g.ex_top > keep) { memset((void*)keep, 0, g.ex_top - keep); memset(hstate(keep), 0, (g.ex_top - keep) / 8 + 1); }
  g.ex_base = g.ex_top = keep;
}

static u64 nowms() { struct timespec ts; rsys6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0); return (u64)ts.tv_sec * 1000 + (u64)ts.tv_nsec / 1000000; }
struct Task { int sc; u64 n; };
static Task tasks[MAXSC]; static int ntasks; static u64 total;
static const vrt::scenario* scs[MAXSC];
static u64 opt_seed = 1, opt_execs = 1000, opt_budget_ms = 60000, opt_exec_timeout = 120000; static int opt_workers = 8;

// global position p in [0,total) maps to (scenario, index): interleave scenarios so that a budget cut hits all equally
static bool map_pos(u64 p, int& sc, u64& idx) {
  // scenarios ordered; block of 16 executions per scenario round robin
  static u64 (*tab)[3]; static u64 ntab;
  if (!tab) {
    u64 cnt = 0; for (int i = 0; i < ntasks; i++) cnt += (tasks[i].n + 15) / 16;
    tab = (u64(*)[3])xmap(0, (cnt + 1) * 24);
    // fractional interleave: emit the task with the smallest progress ratio
    u64 done[MAXSC] = {};
    for (u64 k = 0; k < cnt; k++) {
      int b = -1; double br = 2;
      for (int i = 0; i < ntasks; i++) if (done[i] < tasks[i].n) { double r = (double)done[i] / (double)tasks[i].n; if (r < br) { br = r; b = i; } }
      if (b < 0) break;
      u64 c = tasks[b].n - done[b] < 16 ? tasks[b].n - done[b] : 16;
      tab[ntab][0] = (u64)tasks[b].sc; tab[ntab][1] = done[b]; tab[ntab][2] = c; ntab++; done[b] += c;
    }
  }
  u64 blk = p / 16, off = p % 16;
  if (blk >= ntab) return false;
  sc = (int)tab[blk][0]; idx = tab[blk][1] + off;
  if (off >= tab[blk][2]) { sc = -1; }
  return true;
}
static void pin(int w) {
  cpu_set_t s, out; CPU_ZERO(&s); if (sched_getaffinity(0, sizeof s, &s)) return;
  int n = CPU_COUNT(&s); if (n <= 0) return; int k = w % n; CPU_ZERO(&out);
  for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &s) && k-- == 0) { CPU_SET(i, &out); break; }
  sched_setaffinity(0, sizeof out, &out);
}
static bool forked(const vrt::scenario* s) { return s->flags & (vrt::F_DAEMON | vrt::F_TERMINATE | vrt::F_FORK); }
static int run_forked(int sc, u64 idx) {  // in a worker: run one execution in a child
  int pid = fork();
  if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); run_one(scs[sc], sc, opt_seed, idx, false); if (scs[sc]->flags & vrt::F_TERMINATE) { self = nullptr; } die(0); }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st)) return WEXITSTATUS(st);
  return 128 + WTERMSIG(st);
}
static void worker(int w, u64 from) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  g_worker = w; pin(w); install_signals();
  bool warm[MAXSC] = {};
  u64 t0 = S->w[63].started;
  for (u64 p = from;; p += 1) {
    u64 blk = p / 16;
    if (blk % (u64)opt_workers != (u64)w) { p = (blk + 1) * 16 - 1; if (blk > total / 16 + MAXSC + 64 + total) break; int a; u64 b; if (!map_pos(p + 1, a, b)) break; continue; }
    int sc; u64 idx;
    if (!map_pos(p, sc, idx)) break;
    if (sc < 0) continue;
    if (__atomic_load_n(&S->sc[sc].nviol, __ATOMIC_RELAXED) >= 3) { __atomic_add_fetch(&S->sc[sc].skipped, 1, __ATOMIC_RELAXED); continue; }
    if (nowms() - t0 > opt_budget_ms) { for (;;) { if (sc >= 0) __atomic_add_fetch(&S->sc[sc].skipped, 1, __ATOMIC_RELAXED); p++; blk = p / 16; if (blk % (u64)opt_workers != (u64)w) { p = (blk + 1) * 16; while ((p / 16) % (u64)opt_workers != (u64)w) p += 16; } if (!map_pos(p, sc, idx)) break; } break; }
    Shared::W& ws = S->w[w];
    ws.sc = sc; ws.idx = idx; ws.started = nowms(); ws.busy = 1; ws.kind = 0;
    __atomic_store_n((u64*)&ws.rep[REPLEN - 16], p, __ATOMIC_RELAXED);
    if (forked(scs[sc])) { int rc = run_forked(sc, idx); if (rc) die(rc); }
    else {
      if (!warm[sc]) { warm[sc] = true; for (u64 k = 0; k < 2; k++) run_one(scs[sc], sc, opt_seed, 1000000007ull + k, true); }
      run_one(scs[sc], sc, opt_seed, idx, false);
    }
    ws.busy = 0;
  }
  die(0);
}
static void jstr(FILE* f, const char* s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') { fputc('\\', f); fputc(*s, f); } else if ((u8)*s < 32) fprintf(f, "\\u%04x", *s); else fputc(*s, f); } fputc('"', f); }

int main(int argc, char** argv) {
  const char* filter = nullptr; const char* out = nullptr; long long one = -1; bool list = false; const char* known = nullptr; (void)known;
  for (int i = 1; i < argc; i++) {
#define ARG(n) (!strcmp(argv[i], n) && i + 1 < argc)
    if (ARG("--seed")) opt_seed = strtoull(argv[++i], 0, 10);
    else if (ARG("--execs")) opt_execs = strtoull(argv[++i], 0, 10);
    else if (ARG("--workers")) opt_workers = atoi(argv[++i]);
    else if (ARG("--budget-ms")) opt_budget_ms = strtoull(argv[++i], 0, 10);
    else if (ARG("--exec-timeout-ms")) opt_exec_timeout = strtoull(argv[++i], 0, 10);
    else if (ARG("--scenario")) filter = argv[++i];
    else if (ARG("--index")) one = atoll(argv[++i]);
    else if (ARG("--out")) out = argv[++i];
    else if (!strcmp(argv[i], "--list")) list = true;
    else { fprintf(stderr, "bad argument %s\n", argv[i]); return 2; }
  }
  if (opt_workers > 60) opt_workers = 60;
  init_late();
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  int n = 0; u64 wsum = 0;
  for (vrt::scenario* s = vrt::all; s; s = s->next) {
    if (list) { printf("%s flags=%u weight=%u\n", s->name, s->flags, s->weight); continue; }
    if (filter && strcmp(filter, s->name)) { continue; }
    if (n >= MAXSC) return 2;
    scs[n] = s; snprintf(S->sc[n].name, 64, "%s", s->name); wsum += s->weight; n++;
  }
  if (list) return 0;
  if (!n) { fprintf(stderr, "no scenario\n"); return 2; }
  if (one >= 0) {
    g.trace = getenv("VRT_TRACE") != nullptr;
    g_worker = 0; pin(0);
    S->w[63].started = nowms();
    int pid = fork();
    if (!pid) { install_signals(); S->sc[0].estimate = getenv("VRT_EST") ? strtoull(getenv("VRT_EST"), 0, 10) : 0; if (!forked(scs[0])) for (u64 k = 0; k < 2; k++) { bool tr = g.trace; g.trace = false; run_one(scs[0], 0, opt_seed, 1000000007ull + k, true); g.trace = tr; } run_one(scs[0], 0, opt_seed, (u64)one, false); die(0); }
    int st; waitpid(pid, &st, 0);
    if (S->w[0].kind) printf("%s", S->w[0].rep); else printf("no violation: exit %d signal %d outcome=%s\n", WEXITSTATUS(st), WIFSIGNALED(st) ? WTERMSIG(st) : 0, S->sc[0].outn ? S->sc[0].out[0].s : "");
    return S->w[0].kind ? 1 : 0;
  }
  for (int i = 0; i < n; i++) { tasks[i].sc = i; tasks[i].n = opt_execs * scs[i]->weight / (wsum ? wsum : 1); if (tasks[i].n < 40) tasks[i].n = 40; total += tasks[i].n; }
  ntasks = n; { int a; u64 b; map_pos(0, a, b); }
  // pilot: one execution per scenario to seed the step estimate happens naturally through `estimate`
  u64 t0 = nowms(); S->w[63].started = t0;
  static int pids[64]; int alive = 0;
  auto spawn = [&](int w, u64 from) { fflush(nullptr); S->w[w].started = nowms(); S->w[w].busy = 0; int pid = fork(); if (pid == 0) worker(w, from); pids[w] = pid; };
  for (int w = 0; w < opt_workers; w++) { spawn(w, 0); alive++; }
  FILE* f = out ? fopen(out, "w") : stdout;
  if (!f) return 2;
  fprintf(f, "{\"violations\":[");
  int nv = 0, inconclusive = 0, herr = 0, killed = 0;
  while (alive) {
    int st = 0; int pid = waitpid(-1, &st, WNOHANG);
    if (pid <= 0) {
      struct timespec ts = {0, 3000000}; rsys6(SYS_nanosleep, (long)&ts, 0, 0, 0, 0, 0);
      for (int w = 0; w < opt_workers; w++) if (pids[w] && S->w[w].busy && nowms() - S->w[w].started > opt_exec_timeout) { S->w[w].kind = 3; kill(pids[w], SIGKILL); }
      continue;
    }
    int w = 0; while (w < opt_workers && pids[w] != pid) w++;
    if (w == opt_workers) continue;
    pids[w] = 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { alive--; continue; }
    Shared::W& ws = S->w[w];
    u64 p; __builtin_memcpy(&p, &ws.rep[REPLEN - 16], 8);
    if (ws.kind == 1) { __atomic_add_fetch(&S->sc[ws.sc].nviol, 1, __ATOMIC_RELAXED); if (nv < 200) { fprintf(f, "%s{\"report\":", nv ? "," : ""); jstr(f, ws.rep); fprintf(f, ",\"estimate\":%llu}", (unsigned long long)S->sc[ws.sc].estimate); nv++; } }
    else if (ws.kind == 2) { herr++; fprintf(stderr, "%s\n", ws.rep); }
    else if (ws.kind == 3) { inconclusive++; fprintf(stderr, "vrt: wall-clock watchdog: scenario %s index %llu\n", S->sc[ws.sc].name, (unsigned long long)ws.idx); }
    else if ((WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL && WTERMSIG(st) != SIGTERM) || (WIFEXITED(st) && (WEXITSTATUS(st) == 78 || (WEXITSTATUS(st) > 128 && WEXITSTATUS(st) != 128 + SIGKILL)))) {
      char b[400]; snprintf(b, sizeof b, "KIND crash\nSCENARIO %s\nSEED %llu\nINDEX %llu\nMSG process died with status 0x%x\n", S->sc[ws.sc].name, (unsigned long long)opt_seed, (unsigned long long)ws.idx, st);
      __atomic_add_fetch(&S->sc[ws.sc].nviol, 1, __ATOMIC_RELAXED); fprintf(f, "%s{\"report\":", nv ? "," : ""); jstr(f, b); fprintf(f, "}"); nv++;
    }
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && ++killed <= 20) { fprintf(stderr, "vrt: worker was killed from outside (scenario %s index %llu), repeating it\n", S->sc[ws.sc].name, (unsigned long long)ws.idx); spawn(w, p); continue; }
    else { herr++; fprintf(stderr, "vrt: worker died (status 0x%x) in scenario %s index %llu\n", st, S->sc[ws.sc].name, (unsigned long long)ws.idx); }
    if (nv >= 150 || herr + inconclusive >= 30) { alive--; continue; }
    spawn(w, p + 1);
  }
  fprintf(f, "],\"harness_errors\":%d,\"inconclusive\":%d,\"wall_ms\":%llu,\"scenarios\":[", herr, inconclusive, (unsigned long long)(nowms() - t0));
  for (int i = 0; i < n; i++) {
    ScStat& s = S->sc[i];
    fprintf(f, "%s{\"name\":\"%s\",\"planned\":%llu,\"execs\":%llu,\"distinct\":%llu,\"steps\":%llu,\"accesses\":%llu,\"atomics\":%llu,\"switches\":%llu,\"stale_reads\":%llu,\"spurious\":%llu,\"allocs\":%llu,\"alloc_faults\":%llu,\"race_checks\":%llu,\"observed\":%llu,\"max_threads\":%llu,\"skipped\":%llu,\"outcomes\":{",
            i ? "," : "", s.name, (unsigned long long)tasks[i].n, (unsigned long long)s.execs, (unsigned long long)s.distinct, (unsigned long long)s.steps, (unsigned long long)s.accesses, (unsigned long long)s.atomics, (unsigned long long)s.switches, (unsigned long long)s.stale, (unsigned long long)s.spur, (unsigned long long)s.allocs, (unsigned long long)s.faults, (unsigned long long)s.races_checked, (unsigned long long)s.observed, (unsigned long long)s.maxthreads, (unsigned long long)s.skipped);
    for (u64 k = 0; k < s.outn; k++) { if (k) fputc(',', f); jstr(f, s.out[k].s); fprintf(f, ":%llu", (unsigned long long)s.out[k].n); }
    fprintf(f, "},\"outcomes_other\":%llu}", (unsigned long long)s.outother);
  }
  fprintf(f, "],\"coverage\":{");
  for (u64 i = 0; i < S->covn; i++) { if (i) fputc(',', f); jstr(f, S->cov[i].s); fprintf(f, ":%llu", (unsigned long long)S->cov[i].n); }
  fprintf(f, "},\"samples\":[");
  for (u64 i = 0; i < S->nsamp; i++) { if (i) fputc(',', f); jstr(f, S->samp[i]); }
  fprintf(f, "]}\n");
  if (f != stdout) fclose(f); else fflush(f);
  return herr ? 3 : nv ? 1 : 0;
}
