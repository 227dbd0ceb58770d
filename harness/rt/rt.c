// Deterministic runtime behind the `__tsan_*` instrumentation calls which rustc emits for the crate under test
// and for every generic it instantiates.  It provides
//   * stackful fibers scheduled cooperatively; every atomic operation is a scheduling point,
//   * recorded / replayed scheduling and stale-read decisions,
//   * a vector-clock data-race detector that honours memory orders, with per-location store histories
//     so that non-SC loads may return coherence-permitted older values,
//   * a bump allocator with shadow memory (out-of-bounds, use-after-free, leaks),
//   * step-based livelock and deadlock detection (no wall clock).
// This file is compiled by gcc without instrumentation.
#define _GNU_SOURCE
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#define MAXT 8
typedef uint32_t clk;
typedef struct { clk c[MAXT]; } VC;

enum { K_NONE = 0, K_ORACLE = 1, K_RACE = 2, K_MEM = 3, K_LIVELOCK = 4, K_DEADLOCK = 5, K_BUDGET = 6, K_LEAK = 7, K_INTERNAL = 9 };
enum { F_UNUSED = 0, F_READY, F_BLOCKED, F_STALLED, F_DONE };

// ---------------------------------------------------------------- failure reporting
typedef struct { int kind; char msg[2000]; } Fail;
static Fail local_fail;
static Fail *fail_out = &local_fail;
void rt_set_fail_out(void *p) { fail_out = (Fail *)p; }
int rt_fail_size(void) { return sizeof(Fail); }

static int rt_on;      // instrumentation active
static int cur;        // current fiber

__attribute__((noreturn)) void rt_fail_str(int kind, const char *s, size_t n) {
  rt_on = 0;
  if (fail_out->kind == 0) {
    if (n > sizeof(fail_out->msg) - 1) n = sizeof(fail_out->msg) - 1;
    memcpy(fail_out->msg, s, n);
    fail_out->msg[n] = 0;
    __atomic_store_n(&fail_out->kind, kind, __ATOMIC_SEQ_CST);
  }
  _exit(10);
}
__attribute__((noreturn)) static void failf(int kind, const char *fmt, ...) {
  char b[1800];
  rt_on = 0;
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n < 0) n = 0;
  if (n >= (int)sizeof b) n = sizeof b - 1;
  rt_fail_str(kind, b, n);
}

// ---------------------------------------------------------------- rng
static uint64_t rng_s;
static inline uint64_t rnd(void) {
  rng_s += 0x9E3779B97F4A7C15ull;
  uint64_t z = rng_s;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static inline uint32_t rndn(uint32_t n) { return n ? (uint32_t)((rnd() >> 32) % n) : 0; }

// ---------------------------------------------------------------- arena & shadow
#define ARENA_BASE 0x100000000000ull
#define ARENA_SIZE (512ull << 20)
#define GR 8
static uint8_t *const arena = (uint8_t *)ARENA_BASE;
static uint8_t *valid;      // per granule: 0 unallocated, 1..8 valid leading bytes, 0xFD freed
static size_t bump;
static long live_blocks;
static long total_blocks;
static uint32_t epoch = 1;

#define NREC 12
typedef struct { clk c; uint8_t tid, kind, mask, pad; } Rec;
typedef struct { uint32_t ep; uint8_t n; uint8_t atomic; uint8_t next; uint8_t pad; Rec r[NREC]; } Cell;
static Cell *cells;

static inline int in_arena(uintptr_t a) { return a - ARENA_BASE < ARENA_SIZE; }

// ---------------------------------------------------------------- fibers
#define STACK_SZ (512 * 1024)
#define MAXSNAP 64
typedef struct {
  void *sp;
  uint8_t *stack;
  int state;
  int on;
  uint32_t steps;        // scheduling points passed
  uint32_t spin;         // consecutive non-progress steps since last forced switch
  uint64_t noprog;       // steps in the current global no-progress window
  uint64_t opsteps;      // accesses since the last completed op
  uint32_t ops_done;
  int wait_f; uint32_t wait_n;
  VC vc, frel, facq;
  int has_frel;
  int64_t prio;
  VC snap[MAXSNAP];
  size_t cur_sw, cur_st;
} Fiber;
static Fiber fb[MAXT];
static int nfib;
static uint64_t now_t;

extern void rust_fiber_main(int idx);
extern int rust_panicking(void);
static int is_panicking(void) { int o = rt_on; rt_on = 0; int r = rust_panicking(); rt_on = o; return r; }

__asm__(
    ".text\n.globl rt_ctx_switch\n.type rt_ctx_switch,@function\nrt_ctx_switch:\n"
    "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
    "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
    "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n"
    ".size rt_ctx_switch,.-rt_ctx_switch\n");
extern void rt_ctx_switch(void **save, void *to);

// ---------------------------------------------------------------- decisions
typedef struct { uint32_t f, k, v; } Dec;
#define MAXDEC (1 << 19)
// the decision log lives in a region which may be shared with the parent process
typedef struct { size_t cnt_sw, cnt_st; Dec d[2][1 << 19]; } Log;
static Log *logr;
#define sw_log (logr->d[0])
#define st_log (logr->d[1])
#define n_sw (logr->cnt_sw)
#define n_st (logr->cnt_st)
static Dec *sw_in, *st_in;     // replay tables, sorted by (f, k)
static size_t n_sw_in, n_st_in;
static int replay;
static int policy;             // 0 random, 1 pct
static uint32_t sw_den;        // random policy: switch with probability 1/sw_den
static uint32_t stale_den;     // 0 = SC; otherwise stale read with probability 1/stale_den
static uint32_t pct_at[8];
static int n_pct;
static uint32_t gsteps;
static int64_t low_prio;
static uint32_t spin_limit = 24;
static uint64_t ll_limit = 200000, budget = 4000000;
static int soft_stall;         // stalled fibers are merely delayed
static uint64_t n_switches, n_stale_reads, n_contended, n_forced, n_stall_wakes;
static uint64_t noprog_total;

static inline void progress(void) {
  if (noprog_total) {
    noprog_total = 0;
    for (int i = 0; i < nfib; i++) fb[i].noprog = 0;
  }
}

static int ready_other(int f) {
  for (int i = 1; i < nfib; i++) if (i != f && fb[i].state == F_READY) return 1;
  return 0;
}
static int pick_rr(int f) {
  for (int d = 1; d <= nfib; d++) { int g = (f + d) % nfib; if (g && fb[g].state == F_READY) return g; }
  return -1;
}
static int pick_random_other(int f) {
  int c[MAXT], n = 0;
  for (int i = 1; i < nfib; i++) if (i != f && fb[i].state == F_READY) c[n++] = i;
  return n ? c[rndn(n)] : -1;
}
static int pick_prio(int excl) {
  int b = -1;
  for (int i = 1; i < nfib; i++)
    if (i != excl && fb[i].state == F_READY && (b < 0 || fb[i].prio > fb[b].prio)) b = i;
  return b;
}
static void wake_waiters(void) {
  for (int i = 1; i < nfib; i++)
    if (fb[i].state == F_BLOCKED && fb[fb[i].wait_f].ops_done >= fb[i].wait_n) fb[i].state = F_READY;
}
static void log_sw(int f, uint32_t k, int g) {
  if (n_sw < MAXDEC) { sw_log[n_sw].f = f; sw_log[n_sw].k = k; sw_log[n_sw].v = g; n_sw++; }
}
static int lookup(Dec *t, size_t n, size_t *curs, uint32_t f, uint32_t k, uint32_t *v) {
  while (*curs < n && (t[*curs].f < f || (t[*curs].f == f && t[*curs].k < k))) (*curs)++;
  if (*curs < n && t[*curs].f == f && t[*curs].k == k) { *v = t[*curs].v; return 1; }
  return 0;
}
static void switch_to(int g) {
  int f = cur;
  if (g == f) return;
  n_switches++;
  fb[f].on = rt_on;
  cur = g;
  rt_on = 0;
  rt_ctx_switch(&fb[f].sp, fb[g].sp);
  // resumed
  rt_on = fb[cur].on;
}

static void livelock(void) {
  char b[400]; int n = 0;
  for (int i = 1; i < nfib; i++)
    n += snprintf(b + n, sizeof b - n, " fiber%d:%s/ops_done=%u", i,
                  fb[i].state == F_READY ? "spinning" : fb[i].state == F_STALLED ? "stalled-in-callback" : fb[i].state == F_DONE ? "done" : "waiting", fb[i].ops_done);
  failf(K_LIVELOCK, "no call can complete: every runnable thread keeps spinning without any write (%s )", b);
}

static void native_sync(void);
// A scheduling point of the current fiber.
static void sched_point(int write_like) {
  (void)write_like;
  native_sync();
  now_t++;
  if (cur == 0) {
    // single-threaded phase
    if (++noprog_total > budget) failf(K_LIVELOCK, "a call in the single-threaded phase does not return (spins without any write)");
    return;
  }
  Fiber *F = &fb[cur];
  uint32_t k = ++F->steps;
  gsteps++;
  F->spin++;
  F->noprog++;
  noprog_total++;
  if (is_panicking()) {
    if (F->spin > 100000) failf(K_INTERNAL, "spinning while unwinding");
    return;
  }
  if (F->noprog > ll_limit) {
    int all = 1, stalled = 0;
    for (int i = 1; i < nfib; i++) {
      if (fb[i].state == F_READY && fb[i].noprog <= ll_limit) all = 0;
      if (fb[i].state == F_STALLED) stalled = 1;
    }
    if (all) {
      if (stalled && soft_stall) {
        for (int i = 1; i < nfib; i++) if (fb[i].state == F_STALLED) { fb[i].state = F_READY; n_stall_wakes++; }
        progress();
      } else livelock();
    }
  }
  int g = cur;
  if (replay) {
    uint32_t v;
    if (lookup(sw_in, n_sw_in, &F->cur_sw, cur, k, &v)) {
      if (v > 0 && (int)v < nfib && fb[v].state == F_READY) g = v;
      if (g != cur) F->spin = 0;
    } else if (F->spin > spin_limit && ready_other(cur)) {
      g = pick_rr(cur);
      F->spin = 0;
    }
  } else {
    if (policy == 0) {
      if (sw_den && rndn(sw_den) == 0) { int o = pick_random_other(cur); if (o > 0) g = o; }
    } else {
      for (int i = 0; i < n_pct; i++) if (pct_at[i] == gsteps) F->prio = --low_prio;
      g = pick_prio(-1);
      if (g < 0) g = cur;
    }
    if (g == cur && F->spin > spin_limit && ready_other(cur)) {
      F->spin = 0;
      n_forced++;
      if (policy == 1) { F->prio = --low_prio; g = pick_prio(cur); }
      else g = pick_random_other(cur);
    }
    if (g != cur) { F->spin = 0; log_sw(cur, k, g); }
  }
  if (g != cur) switch_to(g);
}

// current fiber cannot continue (finished, blocked or stalled)
static void leave_cur(void) {
  native_sync();
  Fiber *F = &fb[cur];
  uint32_t k = ++F->steps;
  wake_waiters();
  int g = -1;
  int any = 0, stalled = 0, blocked = 0;
  for (int i = 1; i < nfib; i++) {
    if (fb[i].state == F_READY) any = 1;
    if (fb[i].state == F_STALLED) stalled = 1;
    if (fb[i].state == F_BLOCKED) blocked = 1;
  }
  if (!any && stalled) {
    for (int i = 1; i < nfib; i++) if (fb[i].state == F_STALLED) { fb[i].state = F_READY; n_stall_wakes++; }
    any = 1;
  }
  if (!any) {
    if (blocked) failf(K_DEADLOCK, "all threads wait for each other");
    g = 0;
  } else if (replay) {
    uint32_t v;
    if (lookup(sw_in, n_sw_in, &F->cur_sw, cur, k, &v) && v > 0 && (int)v < nfib && fb[v].state == F_READY) g = v;
    else g = pick_rr(cur);
  } else {
    g = policy == 1 ? pick_prio(-1) : (fb[cur].state == F_READY && rndn(2) ? cur : pick_random_other(cur));
    if (g <= 0) g = pick_rr(cur);
    log_sw(cur, k, g);
  }
  progress();
  F->spin = 0;
  if (g == cur) return;
  switch_to(g);
}

// ---------------------------------------------------------------- race detection
enum { A_PR = 0, A_PW = 1, A_AR = 2, A_AW = 3 };
static const char *const kind_name[] = {"plain read", "plain write", "atomic read", "atomic write"};
static int race_on = 1;
static uint64_t n_checked;

static inline int conflict(int a, int b) {
  // atomics never race with each other; reads never race with reads
  if ((a == A_PR || a == A_AR) && (b == A_PR || b == A_AR)) return 0;
  if (a >= A_AR && b >= A_AR) return 0;
  return 1;
}

static const char *where_hint(uintptr_t a) { (void)a; return ""; }

static void cell_access(uintptr_t g, uint8_t mask, int kind) {
  Cell *c = &cells[g];
  if (c->ep != epoch) { c->ep = epoch; c->n = 0; c->atomic = 0; c->next = 0; }
  Fiber *F = &fb[cur];
  int found = -1;
  for (int i = 0; i < c->n; i++) {
    Rec *r = &c->r[i];
    if (!(r->mask & mask)) continue;
    if (r->tid == cur) {
      if (r->kind == kind && r->mask == mask) found = i;
      continue;
    }
    if (r->c > F->vc.c[r->tid] && conflict(r->kind, kind)) {
      if (race_on)
        failf(K_RACE, "data race: %s by thread %d is concurrent with an earlier %s by thread %d on the same memory (heap block offset %lu)%s",
              kind_name[kind], cur, kind_name[r->kind], r->tid, (unsigned long)(g * GR), where_hint(g));
    }
  }
  clk my = F->vc.c[cur];
  if (kind == A_PW) {
    int j = 0;
    for (int i = 0; i < c->n; i++) if (c->r[i].mask & ~mask) c->r[j++] = c->r[i];
    c->n = j;
    found = -1;
  }
  if (found >= 0) { c->r[found].c = my; return; }
  Rec nr = {my, (uint8_t)cur, (uint8_t)kind, mask, 0};
  if (c->n < NREC) c->r[c->n++] = nr;
  else { c->r[c->next % NREC] = nr; c->next++; }
}

static void loc_invalidate(uintptr_t a, size_t n);

static void mem_access(uintptr_t a, size_t n, int kind) {
  if (n == 0) return;
  size_t g0 = (a - ARENA_BASE) / GR, g1 = (a + n - 1 - ARENA_BASE) / GR;
  if (a + n > ARENA_BASE + ARENA_SIZE) failf(K_MEM, "access runs out of the heap");
  n_checked++;
  Fiber *F = &fb[cur];
  if (++F->opsteps > budget) failf(K_LIVELOCK, "a call of thread %d does not return within %lu memory accesses (ops_done=%u)", cur, (unsigned long)budget, F->ops_done);
  for (size_t g = g0; g <= g1; g++) {
    unsigned lo = g == g0 ? (a & 7) : 0, hi = g == g1 ? ((a + n - 1) & 7) : 7;
    uint8_t v = valid[g];
    if (v == 0 || v > 8 || hi >= v)
      failf(K_MEM, "%s of %zu byte(s) by thread %d touches %s memory (block offset %lu)", kind_name[kind], n, cur,
            v == 0xFD ? "already freed" : "out-of-bounds", (unsigned long)(g * GR + lo));
    uint8_t mask = (uint8_t)(((1u << (hi + 1)) - 1) & ~((1u << lo) - 1));
    cell_access(g, mask, kind);
    if (kind == A_PW && cells[g].atomic) loc_invalidate(ARENA_BASE + g * GR + lo, hi - lo + 1);
  }
  if (kind == A_PW && cur) progress();
}

// ---------------------------------------------------------------- atomics
#define H 6
typedef struct { uint64_t val; VC rel; clk at; uint8_t tid; clk rd[MAXT]; } Store;
typedef struct { uintptr_t addr; uint32_t ep; uint8_t n, size; Store s[H]; } Loc;   // s[0] oldest .. s[n-1] newest
#define LOCBITS 19
static Loc *locs;
static uint32_t *loc_hash; // (1<<LOCBITS) entries: index+1
static uint32_t *loc_hash_ep;
static uint32_t n_locs;
#define MAXLOCS (1u << 18)

// Read-modify-write operations which the compiler does not instrument (fetch_max and fetch_min): they are
// noticed at the next scheduling point of the fiber which executed them, as a change of one of the watched
// locations, and enter the store history with the ordering found in the compiled IR (native_mo).
#define NWATCH 24
static uint32_t watch[NWATCH], n_watch;
static int native_mo = -1;
void rt_set_native_mo(int mo) { native_mo = mo; }

static Loc *loc_find(uintptr_t a, int create) {
  uint64_t h = (a * 0x9E3779B97F4A7C15ull) >> (64 - LOCBITS);
  for (;;) {
    if (loc_hash_ep[h] != epoch) {
      if (!create) return NULL;
      if (n_locs >= MAXLOCS) failf(K_INTERNAL, "too many atomic locations");
      loc_hash_ep[h] = epoch;
      loc_hash[h] = n_locs;
      Loc *l = &locs[n_locs++];
      l->addr = a;
      l->n = 0;
      l->size = 0;
      if (create == 8 && n_watch < NWATCH) watch[n_watch++] = n_locs - 1;
      return l;
    }
    Loc *l = &locs[loc_hash[h]];
    if (l->addr == a) return l;
    h = (h + 1) & ((1u << LOCBITS) - 1);
  }
}
static void loc_invalidate(uintptr_t a, size_t n) {
  for (size_t i = 0; i < n; i++) { Loc *l = loc_find(a + i, 0); if (l) l->n = 0; }
  // wider atomics that begin before `a` inside the same granule
  uintptr_t g = a & ~(uintptr_t)7;
  for (uintptr_t b = g; b < a; b++) { Loc *l = loc_find(b, 0); if (l && b + l->size > a) l->n = 0; }
}

static inline uint64_t rdmem(uintptr_t a, int sz) {
  switch (sz) { case 1: return *(volatile uint8_t *)a; case 2: return *(volatile uint16_t *)a; case 4: return *(volatile uint32_t *)a; default: return *(volatile uint64_t *)a; }
}
static inline void wrmem(uintptr_t a, int sz, uint64_t v) {
  switch (sz) { case 1: *(volatile uint8_t *)a = v; break; case 2: *(volatile uint16_t *)a = v; break; case 4: *(volatile uint32_t *)a = v; break; default: *(volatile uint64_t *)a = v; }
}
static inline void vjoin(VC *a, const VC *b) { for (int i = 0; i < MAXT; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i]; }
static inline int is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline int is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

static void tick(void) { fb[cur].vc.c[cur]++; }

static Loc *loc_touch(uintptr_t a, int sz) {
  Loc *l = loc_find(a, in_arena(a) && sz == 8 ? 8 : 1);
  // memory which changed without an atomic store holds another object now
  if (l->n && (l->size != sz || l->s[l->n - 1].val != rdmem(a, sz))) l->n = 0;
  if (l->n == 0) {
    l->n = 1;
    l->size = sz;
    memset(&l->s[0], 0, sizeof(Store));
    l->s[0].val = rdmem(a, sz);
  }
  return l;
}
static void acq_from(Store *s, int mo) {
  if (is_acq(mo)) vjoin(&fb[cur].vc, &s->rel);
  else vjoin(&fb[cur].facq, &s->rel);
}
static void push_store(Loc *l, uint64_t v, int mo, int rmw) {
  VC rel;
  Fiber *F = &fb[cur];
  if (rmw) rel = l->s[l->n - 1].rel; else memset(&rel, 0, sizeof rel);
  if (is_rel(mo)) vjoin(&rel, &F->vc);
  else if (F->has_frel) vjoin(&rel, &F->frel);
  if (!stale_den) l->n = 0;
  else if (l->n == H) { memmove(&l->s[0], &l->s[1], sizeof(Store) * (H - 1)); l->n = H - 1; }
  Store *s = &l->s[l->n++];
  memset(s, 0, sizeof *s);
  s->val = v;
  s->rel = rel;
  s->tid = cur;
  s->at = F->vc.c[cur];
  s->rd[cur] = F->vc.c[cur];
}
static void native_sync(void) {
  if (native_mo < 0) return;
  for (uint32_t i = 0; i < n_watch; i++) {
    Loc *l = &locs[watch[i]];
    size_t g = (l->addr - ARENA_BASE) / GR;
    if (l->size != 8 || !l->n) continue;
    if (valid[g] != 8 || !cells[g].atomic) { l->n = 0; continue; }
    uint64_t v = rdmem(l->addr, 8);
    if (v == l->s[l->n - 1].val) continue;
    progress();
    fb[cur].spin = 0;
    acq_from(&l->s[l->n - 1], native_mo);
    push_store(l, v, native_mo, 1);
    tick();
  }
}
static inline void at_mem(uintptr_t a, int sz, int kind) {
  if (in_arena(a)) {
    mem_access(a, sz, kind);
    cells[(a - ARENA_BASE) / GR].atomic = 1;
  }
}
static int tracing;
static void tr(const char *what, uintptr_t a, uint64_t v, int mo) {
  if (tracing) { char b[128]; int n = snprintf(b, sizeof b, "T%d step %u %s @%lx %lu mo=%d\n", cur, fb[cur].steps, what, (unsigned long)a, (unsigned long)v, mo); if (write(2, b, n) < 0) {} }
}
static uint64_t at_load(uintptr_t a, int sz, int mo) {
  sched_point(0);
  at_mem(a, sz, A_AR);
  Loc *l = loc_touch(a, sz);
  int pick = l->n - 1;
  Fiber *F = &fb[cur];
  if (stale_den && l->n > 1 && cur && mo != __ATOMIC_SEQ_CST) {
    int floor_i = 0;
    for (int i = l->n - 1; i > 0; i--) {
      Store *s = &l->s[i];
      int seen = s->at <= F->vc.c[s->tid];
      for (int t = 0; !seen && t < nfib; t++) if (s->rd[t] && s->rd[t] <= F->vc.c[t]) seen = 1;
      if (seen) { floor_i = i; break; }
    }
    int avail = l->n - 1 - floor_i;
    if (avail > 0) {
      uint32_t back = 0;
      if (replay) { uint32_t v; if (lookup(st_in, n_st_in, &F->cur_st, cur, F->steps, &v)) back = v; }
      else if (rndn(stale_den) == 0) back = 1 + rndn(avail);
      if ((int)back > avail) back = avail;
      if (back) {
        n_stale_reads++;
        if (!replay && n_st < MAXDEC) { st_log[n_st].f = cur; st_log[n_st].k = F->steps; st_log[n_st].v = back; n_st++; }
      }
      pick -= back;
    }
  }
  Store *s = &l->s[pick];
  if (!s->rd[cur]) s->rd[cur] = F->vc.c[cur];
  acq_from(s, mo);
  uint64_t v = s->val;
  tr("load", a, v, mo);
  tick();
  return v;
}
static void at_store(uintptr_t a, int sz, uint64_t v, int mo) {
  sched_point(1);
  at_mem(a, sz, A_AW);
  Loc *l = loc_touch(a, sz);
  if (rdmem(a, sz) != v) { progress(); fb[cur].spin = 0; }
  tr("store", a, v, mo);
  push_store(l, v, mo, 0);
  wrmem(a, sz, v);
  tick();
}
enum { R_XCHG, R_ADD, R_SUB, R_AND, R_OR, R_XOR, R_NAND };
static uint64_t at_rmw(uintptr_t a, int sz, uint64_t v, int mo, int op) {
  sched_point(1);
  at_mem(a, sz, A_AW);
  Loc *l = loc_touch(a, sz);
  uint64_t o = l->s[l->n - 1].val, nv = v;
  switch (op) { case R_ADD: nv = o + v; break; case R_SUB: nv = o - v; break; case R_AND: nv = o & v; break; case R_OR: nv = o | v; break; case R_XOR: nv = o ^ v; break; case R_NAND: nv = ~(o & v); break; }
  if (sz < 8) nv &= (1ull << (8 * sz)) - 1;
  acq_from(&l->s[l->n - 1], mo);
  if (nv != o) { progress(); fb[cur].spin = 0; }
  tr("rmw", a, nv, mo);
  push_store(l, nv, mo, 1);
  wrmem(a, sz, nv);
  tick();
  return o;
}
static uint64_t at_cas(uintptr_t a, int sz, uint64_t e, uint64_t v, int mo, int fmo) {
  sched_point(1);
  Loc *l;
  uint64_t cv;
  if (in_arena(a)) {
    // validity and race check before looking at the value
    mem_access(a, sz, A_AR);
    cells[(a - ARENA_BASE) / GR].atomic = 1;
  }
  l = loc_touch(a, sz);
  cv = l->s[l->n - 1].val;
  if (cv == e) {
    at_mem(a, sz, A_AW);
    acq_from(&l->s[l->n - 1], mo);
    if (v != cv) { progress(); fb[cur].spin = 0; }
    tr("cas", a, v, mo);
    push_store(l, v, mo, 1);
    wrmem(a, sz, v);
  } else {
    n_contended++;
    Store *s = &l->s[l->n - 1];
    if (!s->rd[cur]) s->rd[cur] = fb[cur].vc.c[cur];
    acq_from(s, fmo);
  }
  tick();
  return cv;
}

#define ATOM(N, T)                                                                                         \
  T __tsan_atomic##N##_load(const volatile T *p, int mo) {                                                 \
    if (!rt_on) return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                               \
    return (T)at_load((uintptr_t)p, N / 8, mo);                                                            \
  }                                                                                                        \
  void __tsan_atomic##N##_store(volatile T *p, T v, int mo) {                                              \
    if (!rt_on) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; }                                      \
    at_store((uintptr_t)p, N / 8, v, mo);                                                                  \
  }                                                                                                        \
  T __tsan_atomic##N##_exchange(volatile T *p, T v, int mo) {                                              \
    if (!rt_on) return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                        \
    return (T)at_rmw((uintptr_t)p, N / 8, v, mo, R_XCHG);                                                  \
  }                                                                                                        \
  T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int mo) {                                             \
    if (!rt_on) return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                         \
    return (T)at_rmw((uintptr_t)p, N / 8, v, mo, R_ADD);                                                   \
  }                                                                                                        \
  T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int mo) {                                             \
    if (!rt_on) return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                         \
    return (T)at_rmw((uintptr_t)p, N / 8, v, mo, R_SUB);                                                   \
  }                                                                                                        \
  T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int mo) {                                             \
    if (!rt_on) return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                         \
    return (T)at_rmw((uintptr_t)p, N / 8, v, mo, R_AND);                                                   \
  }                                                                                                        \
  T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int mo) {                                              \
    if (!rt_on) return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                          \
    return (T)at_rmw((uintptr_t)p, N / 8, v, mo, R_OR);                                                    \
  }                                                                                                        \
  T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int mo) {                                             \
    if (!rt_on) return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                         \
    return (T)at_rmw((uintptr_t)p, N / 8, v, mo, R_XOR);                                                   \
  }                                                                                                        \
  T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int mo) {                                            \
    if (!rt_on) return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                                        \
    return (T)at_rmw((uintptr_t)p, N / 8, v, mo, R_NAND);                                                  \
  }                                                                                                        \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) {                    \
    if (!rt_on) { __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; } \
    return (T)at_cas((uintptr_t)p, N / 8, e, v, mo, fmo);                                                  \
  }                                                                                                        \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) {              \
    T o = __tsan_atomic##N##_compare_exchange_val(p, *e, v, mo, fmo);                                      \
    if (o == *e) return 1;                                                                                 \
    *e = o;                                                                                                \
    return 0;                                                                                              \
  }                                                                                                        \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) {                \
    return __tsan_atomic##N##_compare_exchange_strong(p, e, v, mo, fmo);                                   \
  }
ATOM(8, uint8_t)
ATOM(16, uint16_t)
ATOM(32, uint32_t)
ATOM(64, uint64_t)

void __tsan_atomic_thread_fence(int mo) {
  if (!rt_on) return;
  sched_point(0);
  Fiber *F = &fb[cur];
  if (is_acq(mo)) vjoin(&F->vc, &F->facq);
  if (is_rel(mo)) { F->frel = F->vc; F->has_frel = 1; tick(); }
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

// ---------------------------------------------------------------- plain accesses
static inline void plain(const volatile void *p, size_t n, int w) {
  if (!rt_on) return;
  uintptr_t a = (uintptr_t)p;
  if (!in_arena(a)) {
    if (a < 4096) failf(K_MEM, "null pointer access by thread %d", cur);
    if (++fb[cur].opsteps > budget) failf(K_LIVELOCK, "a call of thread %d does not return within %lu memory accesses", cur, (unsigned long)budget);
    return;
  }
  mem_access(a, n, w ? A_PW : A_PR);
}
#define PL(N)                                                        \
  void __tsan_read##N(void *p) { plain(p, N, 0); }                   \
  void __tsan_write##N(void *p) { plain(p, N, 1); }                  \
  void __tsan_volatile_read##N(void *p) { plain(p, N, 0); }          \
  void __tsan_volatile_write##N(void *p) { plain(p, N, 1); }         \
  void __tsan_unaligned_volatile_read##N(void *p) { plain(p, N, 0); } \
  void __tsan_unaligned_volatile_write##N(void *p) { plain(p, N, 1); } \
  void __tsan_unaligned_read##N(void *p) { plain(p, N, 0); }         \
  void __tsan_unaligned_write##N(void *p) { plain(p, N, 1); }        \
  void __tsan_read_write##N(void *p) { plain(p, N, 0); plain(p, N, 1); } \
  void __tsan_unaligned_read_write##N(void *p) { plain(p, N, 0); plain(p, N, 1); }
PL(1) PL(2) PL(4) PL(8) PL(16)
void __tsan_read_range(void *p, size_t n) { plain(p, n, 0); }
void __tsan_write_range(void *p, size_t n) { plain(p, n, 1); }
void __tsan_vptr_update(void **p, void *v) { (void)v; plain(p, 8, 1); }
void __tsan_vptr_read(void **p) { plain(p, 8, 0); }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (rt_on && n) { plain(s, n, 0); plain(d, n, 1); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (rt_on && n) { plain(s, n, 0); plain(d, n, 1); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (rt_on && n) plain(d, n, 1); return memset(d, c, n); }

// ---------------------------------------------------------------- allocator
static uint64_t alloc_bytes;
void *rt_alloc(size_t size, size_t align) {
  if (!rt_on) {
    if (align <= 16) return malloc(size ? size : 1);
    void *p = NULL;
    if (posix_memalign(&p, align, size)) return NULL;
    return p;
  }
  size_t al = align < 16 ? 16 : align;
  size_t s = (bump + 32 + al - 1) & ~(al - 1);
  if (size > ARENA_SIZE || s + size + 32 > ARENA_SIZE) {
    int o = rt_on; rt_on = 0;
    void *p = rt_alloc(size, align);
    rt_on = o;
    return p;
  }
  bump = s + size;
  alloc_bytes += size;
  uint8_t *p = arena + s;
  size_t full = size / GR, rem = size % GR;
  memset(valid + s / GR, 8, full);
  if (rem) valid[s / GR + full] = rem;
  memset(p, 0xC5, size);
  ((uint64_t *)p)[-1] = size;
  ((uint64_t *)p)[-2] = align;
  live_blocks++;
  total_blocks++;
  if (cur >= 0) {
    // allocation is an event of the current thread: reads by others without synchronization are races
    // (recorded lazily by the first write)
  }
  return p;
}
void rt_free(void *ptr, size_t size, size_t align) {
  uintptr_t a = (uintptr_t)ptr;
  if (!in_arena(a)) { free(ptr); return; }
  size_t g = (a - ARENA_BASE) / GR;
  if (size) {
    if (valid[g] == 0xFD) failf(K_MEM, "double free of a heap block");
    if (valid[g] == 0 || valid[g] > 8) failf(K_MEM, "free of an invalid pointer");
    if (((uint64_t *)ptr)[-1] != size || ((uint64_t *)ptr)[-2] != align) failf(K_MEM, "heap block of layout (%lu,%lu) is freed with layout (%zu,%zu)", (unsigned long)((uint64_t *)ptr)[-1], (unsigned long)((uint64_t *)ptr)[-2], size, align);
    if (rt_on) {
      // freeing conflicts with any unsynchronized access
      int o = rt_on;
      mem_access(a, size, A_PW);
      rt_on = o;
    }
    memset(valid + g, 0xFD, (size + GR - 1) / GR);
  }
  live_blocks--;
}
void *rt_realloc(void *ptr, size_t old, size_t align, size_t nsz) {
  uintptr_t a = (uintptr_t)ptr;
  if (!in_arena(a) && !rt_on && align <= 16) return realloc(ptr, nsz ? nsz : 1);
  void *n = rt_alloc(nsz, align);
  if (!n) return n;
  size_t c = old < nsz ? old : nsz;
  if (rt_on) { if (in_arena(a)) mem_access(a, c, A_PR); if (in_arena((uintptr_t)n) && c) mem_access((uintptr_t)n, c, A_PW); }
  memcpy(n, ptr, c);
  rt_free(ptr, old, align);
  return n;
}
int rt_in_arena(void *p) { return in_arena((uintptr_t)p); }
// 1 if the n bytes at p are allocated heap bytes (or not heap memory at all)
int rt_valid(void *p, size_t n) {
  uintptr_t a = (uintptr_t)p;
  if (!in_arena(a)) return 1;
  for (size_t i = 0; i < n; i++) { size_t g = (a + i - ARENA_BASE) / GR; uint8_t v = valid[g]; if (v == 0 || v > 8 || ((a + i) & 7) >= v) return 0; }
  return 1;
}

// ---------------------------------------------------------------- api for the Rust side
size_t rt_log_size(void) { return sizeof(Log); }
void rt_set_log(void *p) { logr = p; }

static void *mapz(size_t n) {
  void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { fprintf(stderr, "rt: mmap failed\n"); _exit(3); }
  return p;
}
void rt_global_init(void) {
  void *p = mmap((void *)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)ARENA_BASE) { fprintf(stderr, "rt: cannot map arena\n"); _exit(3); }
  valid = mapz(ARENA_SIZE / GR);
  cells = mapz(ARENA_SIZE / GR * sizeof(Cell));
  locs = mapz(sizeof(Loc) * (size_t)MAXLOCS);
  loc_hash = mapz(sizeof(uint32_t) << LOCBITS);
  loc_hash_ep = mapz(sizeof(uint32_t) << LOCBITS);
  if (!logr) logr = mapz(sizeof(Log));
  for (int i = 1; i < MAXT; i++) {
    uint8_t *s = mmap(NULL, STACK_SZ + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (s == MAP_FAILED) _exit(3);
    mprotect(s, 4096, PROT_NONE);
    fb[i].stack = s + 4096;
  }
}
typedef struct {
  uint64_t seed;
  uint32_t policy, sw_den, stale_den, n_pct, pct_len, soft_stall, replay, race_on;
  uint64_t ll_limit, budget;
} Params;

void rt_case_begin(const Params *P, const Dec *sw, size_t nsw, const Dec *st, size_t nst) {
  // shadow of the memory used by the previous case
  if (bump) {
    size_t gn = bump / GR + 8;
    if (gn * GR > ARENA_SIZE) gn = ARENA_SIZE / GR;
    if (gn > (1 << 20)) {
      madvise(valid, ARENA_SIZE / GR, MADV_DONTNEED);
      madvise(arena, ARENA_SIZE, MADV_DONTNEED);
      madvise(cells, ARENA_SIZE / GR * sizeof(Cell), MADV_DONTNEED);
    } else memset(valid, 0, gn);
  }
  bump = 0;
  live_blocks = total_blocks = 0;
  epoch++;
  n_locs = 0;
  n_watch = 0;
  cur = 0;
  nfib = 1;
  now_t = 0;
  gsteps = 0;
  n_sw = n_st = 0;
  sw_in = (Dec *)sw; n_sw_in = nsw; st_in = (Dec *)st; n_st_in = nst;
  replay = P->replay;
  tracing = getenv("RT_TRACE") != NULL;
  policy = P->policy; sw_den = P->sw_den; stale_den = P->stale_den;
  rng_s = P->seed;
  n_pct = P->n_pct > 8 ? 8 : P->n_pct;
  for (int i = 0; i < n_pct; i++) pct_at[i] = 1 + rndn(P->pct_len ? P->pct_len : 1);
  low_prio = 1000;
  soft_stall = P->soft_stall;
  race_on = P->race_on;
  ll_limit = P->ll_limit ? P->ll_limit : 200000;
  budget = P->budget ? P->budget : 4000000;
  n_switches = n_stale_reads = n_contended = n_forced = n_stall_wakes = 0;
  noprog_total = 0;
  n_checked = 0;
  alloc_bytes = 0;
  for (int i = 0; i < MAXT; i++) {
    uint8_t *s = fb[i].stack;
    memset(&fb[i], 0, sizeof(Fiber));
    fb[i].stack = s;
    fb[i].vc.c[i] = 1;
  }
  fb[0].state = F_READY;
  rt_on = 0;
}
static void fiber_entry(void) {
  rust_fiber_main(cur);
  rt_on = 0;
  Fiber *F = &fb[cur];
  F->state = F_DONE;
  F->ops_done = 1u << 30;
  leave_cur();
  failf(K_INTERNAL, "finished fiber resumed");
}
void rt_run(int n) {
  if (n < 1 || n >= MAXT) failf(K_INTERNAL, "bad fiber count");
  int o = rt_on;
  native_sync();
  nfib = n + 1;
  for (int i = 1; i <= n; i++) {
    Fiber *F = &fb[i];
    F->state = F_READY;
    vjoin(&F->vc, &fb[0].vc);
    F->vc.c[i] = fb[0].vc.c[i] + 1; // clocks go on if there were fibers before
    F->cur_sw = F->cur_st = 0;
    F->prio = 2000 + rndn(100000);
    uintptr_t top = ((uintptr_t)F->stack + STACK_SZ) & ~(uintptr_t)15;
    void **sp = (void **)top;
    *--sp = 0;
    *--sp = (void *)fiber_entry;
    for (int k = 0; k < 6; k++) *--sp = 0;
    F->sp = sp;
    F->on = 0;
  }
  fb[0].vc.c[0]++;
  fb[0].state = F_UNUSED;
  int g = -1;
  uint32_t k = ++fb[0].steps, v;
  if (replay) { g = (lookup(sw_in, n_sw_in, &fb[0].cur_sw, 0, k, &v) && v > 0 && (int)v < nfib) ? (int)v : 1; }
  else { g = policy == 1 ? pick_prio(-1) : 1 + (int)rndn(n); log_sw(0, k, g); }
  progress();
  switch_to(g);
  fb[0].state = F_READY;
  for (int i = 1; i <= n; i++) vjoin(&fb[0].vc, &fb[i].vc);
  nfib = 1;
  rt_on = o;
  progress();
}
int rt_cur(void) { return cur; }
uint64_t rt_now(void) { return ++now_t; }
int rt_get_on(void) { return rt_on; }
int rt_set_on(int v) { int o = rt_on; rt_on = v; return o; }
void rt_yield(void) { int o = rt_on; if (nfib > 1 && cur) { sched_point(0); rt_on = o; } }
void rt_op_done(void) {
  native_sync();
  Fiber *F = &fb[cur];
  if (F->ops_done < MAXSNAP) F->snap[F->ops_done] = F->vc;
  F->ops_done++;
  F->vc.c[cur]++;
  F->spin = 0;
  F->opsteps = 0;
  progress();
  wake_waiters();
}
void rt_op_begin(void) { fb[cur].opsteps = 0; if (cur == 0) noprog_total = 0; }
// wait until fiber f has completed n ops (synchronizes-with its n-th completion)
void rt_wait_ops(int f, uint32_t n) {
  if (f < 1 || f >= nfib || f == cur || n == 0) return;
  int o = rt_on;
  while (fb[f].ops_done < n) {
    fb[cur].state = F_BLOCKED;
    fb[cur].wait_f = f;
    fb[cur].wait_n = n;
    leave_cur();
  }
  rt_on = o;
  if (fb[f].state == F_DONE) vjoin(&fb[cur].vc, &fb[f].vc);
  else if (n - 1 < MAXSNAP) vjoin(&fb[cur].vc, &fb[f].snap[n - 1]);
}
void rt_stall(void) {
  if (cur == 0 || is_panicking()) return;
  int o = rt_on;
  fb[cur].state = F_STALLED;
  leave_cur();
  rt_on = o;
}
void rt_vc(clk *out) { for (int i = 0; i < MAXT; i++) out[i] = fb[cur].vc.c[i]; }
clk rt_clk(void) { return fb[cur].vc.c[cur]; }
long rt_live(void) { return live_blocks; }
int rt_pending_other(void) { for (int i = 1; i < nfib; i++) if (i != cur && fb[i].state != F_DONE) return 1; return 0; }
size_t rt_sw_log(const Dec **p) { *p = sw_log; return n_sw; }
size_t rt_st_log(const Dec **p) { *p = st_log; return n_st; }
typedef struct { uint64_t switches, stale, contended, forced, steps, checked, blocks, stall_wakes; } Stats;
void rt_stats(Stats *s) {
  s->switches = n_switches; s->stale = n_stale_reads; s->contended = n_contended; s->forced = n_forced; s->steps = gsteps; s->checked = n_checked; s->blocks = total_blocks; s->stall_wakes = n_stall_wakes;
}
