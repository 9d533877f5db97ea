// Deterministic scheduler, allocator and memory-access hooks.
//
// Built without instrumentation and without C++ containers: nothing in here may
// re-enter the instrumented code.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "rt_int.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace sim {

const char *io_names[IO_OPS] = {"open_r", "open_w", "read",   "write", "close_w",
                                "link",   "rename", "remove", "trunc", "mkdir",
                                "chmod",  "list",   "exec",   "sync"};

bool g_active = false;
Config g_cfg;
Result *g_res = nullptr;
uint64_t g_step = 0, g_next = ~0ull;
__thread int t_self = -1;
uint64_t g_rng_io;

static uint64_t g_rng_sched;
static uint64_t g_stamp;
static uint64_t g_ns;
static uint64_t g_ns_step;

// ---------------------------------------------------------------- utilities

static inline uint64_t splitmix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
uint64_t rng(uint64_t *s) {
  *s += 0x9E3779B97F4A7C15ull;
  uint64_t x = *s;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
void mix(uint64_t v) { g_res->hash = splitmix(g_res->hash ^ v); }
void mix_sched(uint64_t v) {
  g_res->sched_hash = splitmix(g_res->sched_hash ^ v);
}
static inline long raw_futex(int *addr, int op, int val) {
  long ret;
  register long r10 __asm__("r10") = 0;
  register long r8 __asm__("r8") = 0;
  register long r9 __asm__("r9") = 0;
  __asm__ volatile("syscall"
                   : "=a"(ret)
                   : "a"((long)SYS_futex), "D"(addr), "S"((long)op),
                     "d"((long)val), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
void *real_sym(const char *name) {
  void *p = dlsym(RTLD_NEXT, name);
  if (p == nullptr) {
    const char m[] = "sim: missing symbol\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(99);
  }
  return p;
}

[[noreturn]] static void finish(int outcome) {
  g_active = false;
  g_res->outcome = outcome;
  g_res->steps = g_step;
  g_res->sim_ns = g_ns + (g_step - g_ns_step) * 10;
  _exit(0);
}

void fail(const char *cls, const char *fmt, ...) {
  g_active = false;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(g_res->msg, sizeof(g_res->msg), fmt, ap);
  va_end(ap);
  if (reading_failed()) {
    // What this life says no longer counts, only what it leaves behind.
    strncpy(g_res->cls, "abort", sizeof(g_res->cls) - 1);
    finish(O_ABORT);
  }
  strncpy(g_res->cls, cls, sizeof(g_res->cls) - 1);
  finish(O_VIOLATION);
}
void internal(const char *fmt, ...) {
  g_active = false;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(g_res->msg, sizeof(g_res->msg), fmt, ap);
  va_end(ap);
  strncpy(g_res->cls, "internal", sizeof(g_res->cls) - 1);
  finish(O_INTERNAL);
}
void die_crash(const char *what) {
  snprintf(g_res->msg, sizeof(g_res->msg), "%s", what);
  finish(O_CRASH);
}
void die_abort(const char *what) {
  snprintf(g_res->msg, sizeof(g_res->msg), "%s", what);
  strncpy(g_res->cls, "abort", sizeof(g_res->cls) - 1);
  finish(O_ABORT);
}

// ---------------------------------------------------------------- allocator
//
// Addresses must not differ between two executions of the same run, so the
// simulated process allocates from its own arena at a fixed address.  Freed
// blocks are poisoned and quarantined; the shadow map lets the access hooks
// notice a touch of freed or never-allocated heap memory.

static const uintptr_t ARENA[2] = {0x100000000000ull, 0x110000000000ull};
static const size_t ARENA_SIZE = 6ull << 30;
static const uintptr_t SHADOW = 0x120000000000ull; // of arena 1
static const uint64_t LIVE_MAGIC = 0x51A1A110C8ull, DEAD_MAGIC = 0xDEADA110C8ull;

struct Hdr {
  uint64_t size;
  uint64_t magic;
};
static const int NCLASS = 2049; // 16-byte steps up to 32K
static const int NLARGE = 40;
struct Arena {
  uintptr_t top, end;
  void *small[NCLASS];
  void *large[NLARGE];
};
static Arena g_arena[2];
static int g_cur_arena = 0;
static const int QN = 4096;
static void *g_quar[QN];
static int g_qpos;
static size_t g_qbytes;
static volatile int g_malloc_lock;
static int64_t g_alloc_fail_at = -1;
static int g_fresh = 0xCD; // what new memory is filled with
static uint64_t g_alloc_count;

static void arena_init(int a) {
  void *p = mmap((void *)ARENA[a], ARENA_SIZE, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p != (void *)ARENA[a])
    _exit(98);
  memset(&g_arena[a], 0, sizeof(Arena));
  g_arena[a].top = ARENA[a];
  g_arena[a].end = ARENA[a] + ARENA_SIZE;
  if (a == 1) {
    p = mmap((void *)SHADOW, ARENA_SIZE / 16, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (p != (void *)SHADOW)
      _exit(98);
  }
}
static inline void mlock_() {
  while (__sync_lock_test_and_set(&g_malloc_lock, 1))
    sched_yield();
}
static inline void munlock_() { __sync_lock_release(&g_malloc_lock); }

static inline int large_class(size_t n) {
  int c = 0;
  while ((32768ull << c) < n)
    c++;
  return c;
}
static void release_block(Arena *A, Hdr *h) {
  size_t n = h->size;
  void **slot = n < 16 * NCLASS ? &A->small[n / 16] : &A->large[large_class(n)];
  *(void **)(h + 1) = *slot;
  *slot = h;
}
static void shadow_set(uintptr_t p, size_t n, uint8_t v) {
  memset((void *)(SHADOW + ((p - ARENA[1]) >> 4)), v, (n + 15) >> 4);
}
static void *arena_alloc(size_t want) {
  int a = g_cur_arena;
  Arena *A = &g_arena[a];
  if (A->top == 0)
    arena_init(a);
  size_t n = (want + 15) & ~15ull;
  if (n == 0)
    n = 16;
  Hdr *h = nullptr;
  if (n < 16 * NCLASS) {
    h = (Hdr *)A->small[n / 16];
    if (h)
      A->small[n / 16] = *(void **)(h + 1);
  } else {
    int c = large_class(n);
    n = 32768ull << c;
    h = (Hdr *)A->large[c];
    if (h)
      A->large[c] = *(void **)(h + 1);
  }
  if (!h) {
    size_t total = n + sizeof(Hdr) + 16; // trailing red zone
    if (A->top + total > A->end)
      return nullptr;
    h = (Hdr *)A->top;
    A->top += total;
    h->size = n;
  }
  h->magic = LIVE_MAGIC ^ (uint64_t)a;
  if (a == 1) {
    shadow_set((uintptr_t)(h + 1), want ? want : 1, 1);
    memset(h + 1, g_fresh, want < 4096 ? want : 4096);
  }
  return h + 1;
}
static inline int arena_of(void *p) {
  uintptr_t u = (uintptr_t)p;
  for (int a = 0; a < 2; a++)
    if (u >= ARENA[a] && u < ARENA[a] + ARENA_SIZE)
      return a;
  return -1;
}
static void arena_free(void *p) {
  int a = arena_of(p);
  if (a < 0)
    return;
  Hdr *h = (Hdr *)p - 1;
  if (h->magic != (LIVE_MAGIC ^ (uint64_t)a)) {
    if (g_active && t_self >= 0) {
      munlock_();
      fail("memory-safety", "free of %s heap block",
           h->magic == DEAD_MAGIC ? "an already freed" : "an invalid");
    }
    return;
  }
  if (a == 1) {
    h->magic = DEAD_MAGIC;
    shadow_set((uintptr_t)p, h->size, 0);
    memset(p, 0xDB, h->size < 512 ? h->size : 512);
    if (h->size > (1u << 20)) {
      release_block(&g_arena[1], h);
      return;
    }
    void *old = g_quar[g_qpos];
    g_quar[g_qpos] = h;
    g_qpos = (g_qpos + 1) % QN;
    g_qbytes += h->size;
    if (old) {
      g_qbytes -= ((Hdr *)old)->size;
      release_block(&g_arena[1], (Hdr *)old);
    }
    while (g_qbytes > (64u << 20)) { // bound quarantine memory
      int i = g_qpos, k = 0;
      while (k < QN && !g_quar[i])
        i = (i + 1) % QN, k++;
      if (k == QN)
        break;
      g_qbytes -= ((Hdr *)g_quar[i])->size;
      release_block(&g_arena[1], (Hdr *)g_quar[i]);
      g_quar[i] = nullptr;
    }
  } else {
    h->magic = DEAD_MAGIC;
    release_block(&g_arena[0], h);
  }
}
static size_t usable(void *p) { return ((Hdr *)p - 1)->size; }

static void *do_malloc(size_t n) {
  if (g_active && t_self >= 0) {
    g_alloc_count++;
    if (g_alloc_fail_at >= 0 && (int64_t)g_alloc_count == g_alloc_fail_at) {
      g_res->fired[F_ALLOC]++;
      mix(0xA110C);
      errno = ENOMEM;
      return nullptr;
    }
  }
  mlock_();
  void *p = arena_alloc(n);
  munlock_();
  if (!p)
    errno = ENOMEM;
  return p;
}
} // namespace sim

extern "C" {
void *malloc(size_t n) { return sim::do_malloc(n); }
void free(void *p) {
  if (!p)
    return;
  if (sim::g_active && sim::t_self < 0)
    return; // a finished thread's leftovers: freeing would not be repeatable
  sim::mlock_();
  sim::arena_free(p);
  sim::munlock_();
}
void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return nullptr;
  }
  void *p = sim::do_malloc(n);
  if (p)
    memset(p, 0, n);
  return p;
}
void *realloc(void *p, size_t n) {
  if (!p)
    return sim::do_malloc(n);
  if (n == 0) {
    free(p);
    return nullptr;
  }
  void *q = sim::do_malloc(n);
  if (!q)
    return nullptr;
  size_t m = sim::usable(p);
  memcpy(q, p, m < n ? m : n);
  free(p);
  return q;
}
static void *aligned(size_t al, size_t n) {
  if (al <= 16)
    return sim::do_malloc(n);
  // over-allocate; the block header must directly precede the pointer
  sim::mlock_();
  int a = sim::g_cur_arena;
  sim::Arena *A = &sim::g_arena[a];
  if (A->top == 0)
    sim::arena_init(a);
  size_t m = (n + 15) & ~15ull;
  if (m >= 16 * sim::NCLASS) {
    m = 32768ull << sim::large_class(m);
  }
  if (m == 0)
    m = 16;
  uintptr_t data = (A->top + sizeof(sim::Hdr) + al - 1) & ~(al - 1);
  sim::Hdr *h = (sim::Hdr *)data - 1;
  A->top = data + m + 16;
  h->size = m;
  h->magic = sim::LIVE_MAGIC ^ (uint64_t)a;
  if (a == 1)
    sim::shadow_set(data, m, 1);
  sim::munlock_();
  return (void *)data;
}
void *memalign(size_t al, size_t n) { return aligned(al, n); }
void *aligned_alloc(size_t al, size_t n) { return aligned(al, n); }
int posix_memalign(void **out, size_t al, size_t n) {
  *out = aligned(al, n);
  return *out ? 0 : ENOMEM;
}
size_t malloc_usable_size(void *p) { return p ? sim::usable(p) : 0; }
}

namespace sim {

// ---------------------------------------------------------------- scheduler

enum State { T_FREE, T_RUN, T_BLOCKED, T_SLEEP, T_IDLE, T_DONE };
static const int MAX_T = 4000;   // threads of an incarnation, ever
static const int MAX_STACK = 256; // at the same time
static const size_t STACK = 8u << 20;
static const uintptr_t STACKS = 0x130000000000ull;

struct Thread {
  int state;
  int go; // futex word
  uintptr_t key;
  uint64_t wake_at;      // T_SLEEP
  uint64_t delay_until;  // WATCH/RARE: not eligible before this step
  uint64_t prio;
  uint64_t blocked_seq;  // FIFO order
  bool delayed;
  bool client;
  bool detached;
  bool joined;
  bool timed, timed_out;
  pthread_t real;
  void *(*fn)(void *);
  void *arg;
  void *ret;
};
static Thread g_t[MAX_T];
static int g_nt;
static int g_stack_owner[MAX_STACK]; // stack slot -> thread id, or -1
static int g_cur;
static uint64_t g_block_seq;
static uint64_t g_pct_low;
static uint64_t g_pct_at[16];
static int g_pct_n, g_pct_i;
static int g_sw_i;
static uint64_t g_last_switch;
static uintptr_t g_watch; // address>>3 being watched, or 0
static bool g_watch_write;
static int g_watch_thread = -1;
static uint64_t g_watch_deadline;
static uint16_t g_pc_count[1 << 14];
static int g_exit_key_ready;
static pthread_key_t g_exit_key;
static int g_done_futex;

typedef int (*create_fn)(pthread_t *, const pthread_attr_t *, void *(*)(void *),
                         void *);
typedef int (*join_fn)(pthread_t, void **);
static create_fn real_create;
static join_fn real_join;

bool active() { return g_active && t_self >= 0; }
int self() { return t_self; }
uint64_t stamp() { return ++g_stamp; }
void note(uint64_t v) { mix(v ^ 0x5151); }
void probe(int id) {
  if (g_res && id >= 0 && id < 64)
    g_res->probes[id]++;
}
uint64_t now_ns() {
  return 1700000000000000000ull + g_ns + (g_step - g_ns_step) * 10;
}

static uint64_t geometric(uint64_t mean) {
  if (mean <= 1)
    return 1;
  uint64_t r = rng(&g_rng_sched);
  // cheap heavy-ish tail: uniform in [1, 2*mean], sometimes much shorter
  if ((r & 7) == 0)
    return 1 + (r >> 8) % (mean / 16 + 1);
  return 1 + (r >> 8) % (2 * mean);
}
static int g_quiet;
static void arm_next() {
  if (g_quiet) {
    g_next = ~0ull;
    return;
  }
  switch (g_cfg.strategy) {
  case S_RANDOM:
  case S_WATCH:
    g_next = g_step + geometric(g_cfg.gap);
    break;
  case S_RARE:
    g_next = g_step + 1;
    break;
  case S_PCT:
    g_next = g_pct_i < g_pct_n ? g_pct_at[g_pct_i] : ~0ull;
    if (g_next <= g_step)
      g_next = g_step + 1;
    break;
  case S_COARSE:
    g_next = ~0ull;
    break;
  case S_EXPLICIT:
    while (g_sw_i < g_cfg.nswitches && g_cfg.switches[g_sw_i].step < g_step)
      g_sw_i++;
    g_next = g_sw_i < g_cfg.nswitches ? g_cfg.switches[g_sw_i].step : ~0ull;
    break;
  }
  // fairness and budget: nobody runs unobserved for more than a quantum
  uint64_t quantum = g_step + 2000000;
  if (g_next > quantum)
    g_next = quantum;
}

static void undelay(int i) {
  g_t[i].delayed = false;
  if (g_watch_thread == i) {
    g_watch_thread = -1;
    g_watch = 0;
  }
}
static int runnable(int *out, int except) {
  int n = 0, nd = 0;
  for (int i = 0; i < g_nt; i++) {
    if (g_t[i].state != T_RUN || i == except)
      continue;
    if (g_t[i].delayed && g_t[i].delay_until <= g_step)
      undelay(i);
    if (g_t[i].delayed)
      nd++;
    else
      out[n++] = i;
  }
  if (n == 0 && nd > 0 && except < 0)
    for (int i = 0; i < g_nt; i++)
      if (g_t[i].state == T_RUN && g_t[i].delayed) {
        undelay(i);
        out[n++] = i;
      }
  return n;
}

// A thread may be preempted and, at the same step, block: the two choices are
// told apart by FORCED.
static const int FORCED = 100000;
static void record(int tid, int forced = 0) {
  if (g_res->ntrace < MAX_TRACE) {
    Switch *s = &g_res->trace[g_res->ntrace++];
    s->inc = g_cfg.inc;
    s->tid = tid + forced;
    s->step = g_step;
  }
}

static void release_to(int next) {
  g_cur = next;
  g_last_switch = g_step;
  __atomic_store_n(&g_t[next].go, 1, __ATOMIC_SEQ_CST);
  raw_futex(&g_t[next].go, FUTEX_WAKE_PRIVATE, 1);
}
static void wait_go(int me) {
  while (__atomic_load_n(&g_t[me].go, __ATOMIC_SEQ_CST) == 0)
    raw_futex(&g_t[me].go, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(&g_t[me].go, 0, __ATOMIC_SEQ_CST);
}
static void switch_to(int me, int next) {
  if (next == me)
    return;
  g_res->switches++;
  mix(((uint64_t)next << 48) ^ g_step);
  int saved = errno;
  release_to(next);
  wait_go(me);
  errno = saved;
  if (g_cfg.strategy != S_PCT)
    arm_next();
}

[[noreturn]] static void deadlock() {
  char buf[1024];
  int n = 0;
  for (int i = 0; i < g_nt && n < 900; i++)
    if (g_t[i].state == T_BLOCKED)
      n += snprintf(buf + n, sizeof buf - n, " T%d%s", i,
                    g_t[i].client ? "(client)" : "");
  fail("deadlock", "no thread can run; blocked:%s", buf);
}

// The next recorded choice at this very step, if it can be followed.
static int explicit_pick(const int *c, int n, int forced = 0) {
  for (int i = g_sw_i; i < g_cfg.nswitches; i++) {
    if (g_cfg.switches[i].step < g_step)
      continue;
    if (g_cfg.switches[i].step > g_step)
      break;
    for (int k = 0; k < n; k++)
      if (c[k] + forced == g_cfg.switches[i].tid) {
        g_sw_i = i + 1;
        return c[k];
      }
  }
  return -1;
}

// Choose someone when the current thread cannot continue.
static int choose_blocked() {
  int c[MAX_T];
  for (;;) {
    int n = runnable(c, -1);
    if (n > 0) {
      int next = c[0];
      switch (g_cfg.strategy) {
      case S_EXPLICIT: {
        int k = explicit_pick(c, n, FORCED);
        if (k >= 0)
          next = k;
        break;
      }
      case S_PCT:
        for (int k = 1; k < n; k++)
          if (g_t[c[k]].prio > g_t[next].prio)
            next = c[k];
        break;
      default:
        next = c[rng(&g_rng_sched) % n];
      }
      int could = 0;
      for (int i = 0; i < g_nt; i++)
        could += g_t[i].state == T_RUN;
      if (could > 1)
        record(next, FORCED);
      return next;
    }
    // nobody runnable: let simulated time pass
    int best = -1;
    for (int i = 0; i < g_nt; i++)
      if (g_t[i].state == T_SLEEP || (g_t[i].state == T_BLOCKED && g_t[i].timed))
        if (best < 0 || g_t[i].wake_at < g_t[best].wake_at)
          best = i;
    if (best >= 0) {
      uint64_t now = now_ns();
      if (g_t[best].wake_at > now)
        g_ns += g_t[best].wake_at - now;
      g_t[best].timed_out = true;
      g_t[best].timed = false;
      g_t[best].state = T_RUN;
      continue;
    }
    for (int i = 0; i < g_nt; i++)
      if (g_t[i].state == T_IDLE) {
        g_t[i].state = T_RUN;
        return i;
      }
    deadlock();
  }
}

// The current thread could continue; maybe let another one.
static void preempt(int me, bool must_other) {
  int c[MAX_T];
  int n = runnable(c, me);
  if (n == 0)
    return;
  int next = c[rng(&g_rng_sched) % n];
  (void)must_other;
  record(next);
  g_res->preemptions++;
  switch_to(me, next);
}

static void pct_run(int me) { // highest priority runs
  int c[MAX_T];
  int n = runnable(c, me);
  int next = me;
  for (int k = 0; k < n; k++)
    if (g_t[c[k]].prio > g_t[next].prio)
      next = c[k];
  if (next != me) {
    record(next);
    switch_to(me, next);
  }
}

static void explicit_here(int me) {
  int c[MAX_T];
  int n = runnable(c, me);
  int t = explicit_pick(c, n);
  if (t >= 0) {
    record(t);
    g_res->preemptions++;
    switch_to(me, t);
  }
}

[[noreturn]] static void budget() {
  fail("no-progress", "step budget of %llu exhausted without completion",
       (unsigned long long)g_cfg.max_steps);
}

static void check_budget(int me) {
  if (g_step > g_cfg.max_steps)
    budget();
  if (g_step - g_last_switch > 1500000 && g_cfg.strategy != S_EXPLICIT) {
    // quantum expired: a spinning thread must not starve the rest
    if (g_cfg.strategy == S_PCT)
      g_t[me].prio = --g_pct_low;
    preempt(me, true);
    g_last_switch = g_step;
  }
}

void sync_point(int kind, uintptr_t obj) {
  int me = t_self;
  g_step++;
  g_res->sync_points++;
  if (obj >= 0x140000000000ull) // a library address: not the same every time
    obj = 0;
  mix_sched(((uint64_t)me << 56) ^ ((uint64_t)kind << 48) ^ obj);
  if (g_quiet) {
    if (g_step > g_cfg.max_steps)
      budget();
    return;
  }
  switch (g_cfg.strategy) {
  case S_EXPLICIT:
    if (g_step >= g_next) {
      explicit_here(me);
      arm_next();
    }
    if (g_step > g_cfg.max_steps)
      budget();
    return;
  case S_PCT:
    if (g_step >= g_next) {
      while (g_pct_i < g_pct_n && g_pct_at[g_pct_i] <= g_step) {
        g_t[me].prio = --g_pct_low;
        g_pct_i++;
      }
      check_budget(me);
      arm_next();
    }
    pct_run(me);
    return;
  default:
    check_budget(me);
    if ((int)(rng(&g_rng_sched) % 1000) < g_cfg.sync_permille)
      preempt(me, false);
    if (g_step >= g_next)
      arm_next();
  }
}

void quiet(bool on) {
  if (!active())
    return;
  if (on) {
    if (g_quiet++ == 0)
      g_next = ~0ull;
  } else if (--g_quiet == 0) {
    arm_next();
  }
}

void pause_point() {
  if (active())
    sync_point(9, 0);
}

__attribute__((noinline)) static void mem_slow(uintptr_t a, bool w,
                                               uintptr_t pc) {
  int me = t_self;
  if (g_quiet)
    return;
  if (g_watch && (a >> 3) == g_watch && me != g_watch_thread &&
      (w || g_watch_write)) {
    int t = g_watch_thread;
    undelay(t);
    if (g_t[t].state == T_RUN && (rng(&g_rng_sched) & 3) != 0) {
      // let the delayed access go first or second, both legal
      if (rng(&g_rng_sched) & 1) {
        record(t);
        g_res->preemptions++;
        switch_to(me, t);
      } else {
        g_next = g_step + 1;
        return;
      }
    }
  }
  if (g_watch && g_step > g_watch_deadline && g_watch_thread >= 0)
    undelay(g_watch_thread);
  if (g_step < g_next)
    return;
  switch (g_cfg.strategy) {
  case S_RANDOM:
    check_budget(me);
    if (g_step >= g_next) {
      arm_next();
      preempt(me, false);
    }
    break;
  case S_PCT:
    while (g_pct_i < g_pct_n && g_pct_at[g_pct_i] <= g_step) {
      g_t[me].prio = --g_pct_low;
      g_pct_i++;
    }
    check_budget(me);
    arm_next();
    pct_run(me);
    break;
  case S_RARE: {
    if ((g_step & 1023) == 0)
      check_budget(me);
    uint16_t *n = &g_pc_count[(pc ^ (pc >> 14)) & 16383];
    if (*n < 60000)
      ++*n;
    g_next = g_step + 1;
    uint64_t r = rng(&g_rng_sched);
    uint64_t lim = *n <= 2 ? g_cfg.gap : g_cfg.gap * (uint64_t)*n;
    if (r % lim != 0)
      return;
  }
    // fallthrough
  case S_WATCH: {
    check_budget(me);
    if (g_cfg.strategy == S_WATCH)
      arm_next();
    int c[MAX_T];
    if (g_watch_thread >= 0 || runnable(c, me) == 0) {
      if (rng(&g_rng_sched) & 1)
        preempt(me, false);
      return;
    }
    g_t[me].delayed = true;
    g_t[me].delay_until = g_step + (200ull << (rng(&g_rng_sched) % 10));
    g_watch_thread = me;
    g_watch = a >> 3;
    g_watch_write = w;
    g_watch_deadline = g_t[me].delay_until;
    preempt(me, true);
    if (g_t[me].delayed)
      undelay(me);
    break;
  }
  case S_COARSE:
    check_budget(me);
    arm_next();
    break;
  case S_EXPLICIT:
    if (g_step > g_cfg.max_steps)
      budget();
    explicit_here(me);
    arm_next();
    break;
  }
}

static void block_current(int state) {
  int me = t_self;
  g_t[me].state = state;
  g_t[me].blocked_seq = ++g_block_seq;
  if (g_t[me].delayed)
    undelay(me);
  int next = choose_blocked();
  if (next != me)
    switch_to(me, next);
  else if (g_cfg.strategy != S_PCT)
    arm_next();
}
void block_on(uintptr_t key) {
  g_t[t_self].key = key;
  block_current(T_BLOCKED);
}
int wake_key(uintptr_t key, int n) {
  int woken = 0;
  while (woken < n) {
    int best = -1;
    for (int i = 0; i < g_nt; i++)
      if (g_t[i].state == T_BLOCKED && g_t[i].key == key)
        if (best < 0 || g_t[i].blocked_seq < g_t[best].blocked_seq)
          best = i;
    if (best < 0)
      break;
    g_t[best].state = T_RUN;
    g_t[best].timed = false;
    g_t[best].timed_out = false;
    woken++;
  }
  return woken;
}
static bool block_timed(uintptr_t key, uint64_t deadline) { // true: woken
  g_t[t_self].timed = true;
  g_t[t_self].timed_out = false;
  g_t[t_self].wake_at = deadline;
  block_on(key);
  g_t[t_self].timed = false;
  return !g_t[t_self].timed_out;
}

int live_background() {
  int n = 0;
  for (int i = 0; i < g_nt; i++)
    if (g_t[i].state != T_DONE && g_t[i].state != T_FREE && !g_t[i].client)
      n++;
  return n;
}
void mark_client() { g_t[t_self].client = true; }
int wait_idle() {
  block_current(T_IDLE);
  int n = 0;
  for (int i = 0; i < g_nt; i++)
    if (g_t[i].state == T_BLOCKED && i != t_self && !g_t[i].client)
      n++;
  return n;
}

static void thread_end(void *v) {
  int me = (int)((intptr_t)v - 1);
  if (!g_active)
    return;
  g_t[me].state = T_DONE;
  if (g_t[me].delayed)
    undelay(me);
  wake_key((uintptr_t)&g_t[me], MAX_T);
  mix_sched(((uint64_t)me << 56) ^ 0xE01D);
  if (me == 0) {
    __atomic_store_n(&g_done_futex, 1, __ATOMIC_SEQ_CST);
    raw_futex(&g_done_futex, FUTEX_WAKE_PRIVATE, 1);
    return;
  }
  int next = choose_blocked();
  t_self = -1; // what libc still does in this thread is not simulated
  release_to(next);
}
static void *trampoline(void *v) {
  int me = (int)((intptr_t)v - 1);
  t_self = me;
  wait_go(me);
  pthread_setspecific(g_exit_key, v);
  if (g_cfg.strategy != S_PCT)
    arm_next();
  void *r = g_t[me].fn(g_t[me].arg);
  g_t[me].ret = r;
  return r;
}
static int spawn(void *(*fn)(void *), void *arg) {
  if (g_nt >= MAX_T)
    internal("too many threads");
  int id = g_nt++;
  Thread *t = &g_t[id];
  memset(t, 0, sizeof *t);
  t->fn = fn;
  t->arg = arg;
  t->prio = (1ull << 40) + (rng(&g_rng_sched) & 0xFFFFFFFF);
  int slot = -1;
  for (int s = 0; s < MAX_STACK; s++) {
    int o = g_stack_owner[s];
    if (o < 0) {
      slot = s;
      break;
    }
    if (g_t[o].state == T_DONE) {
      real_join(g_t[o].real, nullptr);
      slot = s;
      break;
    }
  }
  if (slot < 0)
    internal("no stack slot");
  g_stack_owner[slot] = id;
  pthread_attr_t at;
  pthread_attr_init(&at);
  // 64K guard gap between slots
  pthread_attr_setstack(&at, (void *)(STACKS + slot * (STACK + 65536)), STACK);
  if (real_create(&t->real, &at, trampoline, (void *)(intptr_t)(id + 1)) != 0)
    internal("pthread_create failed");
  pthread_attr_destroy(&at);
  t->state = T_RUN;
  g_res->threads_created++;
  int live = 0;
  for (int i = 0; i < g_nt; i++)
    if (g_t[i].state != T_DONE)
      live++;
  if ((uint64_t)live > g_res->max_threads)
    g_res->max_threads = live;
  return id;
}

// ---------------------------------------------------------------- child entry

Result *alloc_result() { return (Result *)alloc_shared(sizeof(Result)); }
void *alloc_shared(size_t bytes) {
  void *p = mmap(nullptr, bytes, PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED)
    _exit(97);
  return p;
}

static void on_signal(int sig, siginfo_t *si, void *) {
  if (g_res) {
    if (sig == SIGXCPU) {
      snprintf(g_res->msg, sizeof g_res->msg, "cpu limit exceeded");
      strncpy(g_res->cls, "no-progress", sizeof g_res->cls - 1);
      g_res->outcome = O_VIOLATION;
      _exit(0);
    }
    snprintf(g_res->msg, sizeof g_res->msg, "fatal signal %d", sig);
    (void)si;
    strncpy(g_res->cls, "fatal-signal", sizeof g_res->cls - 1);
    g_res->outcome = O_ABORT;
    g_res->steps = g_step;
  }
  _exit(0);
}
struct Entry {
  void (*fn)(void *);
  void *arg;
};
static void *entry(void *v) {
  Entry *e = (Entry *)v;
  e->fn(e->arg);
  finish(O_DONE);
}

void run_child(const Config &config, Result *result, void (*fn)(void *),
               void *arg) {
  static Entry e;
  g_cfg = config;
  g_res = result;
  real_create = (create_fn)real_sym("pthread_create");
  real_join = (join_fn)real_sym("pthread_join");
  io_init();
  struct rlimit rl = {60, 70};
  setrlimit(RLIMIT_CPU, &rl);
  struct rlimit core = {0, 0};
  setrlimit(RLIMIT_CORE, &core);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  // a fatal signal may be a stack overflow: handle it elsewhere
  static const int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU};
  for (int sg : sigs)
    sigaction(sg, &sa, nullptr);
  signal(SIGPIPE, SIG_DFL);
  uint64_t s = splitmix(config.seed * 1000003 + config.inc);
  g_rng_sched = s;
  static const int fresh[] = {0x00, 0x00, 0xCD, 0xFF};
  g_fresh = fresh[splitmix(config.seed ^ 0xF111) & 3];
  g_rng_io = splitmix(s ^ 0x10);
  for (int i = 0; i < MAX_STACK; i++)
    g_stack_owner[i] = -1;
  void *p = mmap((void *)STACKS, MAX_STACK * (STACK + 65536), PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p != (void *)STACKS)
    _exit(96);
  for (int i = 0; i < MAX_STACK; i++)
    mprotect((void *)(STACKS + i * (STACK + 65536) + STACK), 65536, PROT_NONE);
  pthread_key_create(&g_exit_key, thread_end);
  g_exit_key_ready = 1;
  if (config.strategy == S_PCT) {
    g_pct_n = config.pct_points < 16 ? config.pct_points : 16;
    for (int i = 0; i < g_pct_n; i++)
      g_pct_at[i] = 1 + rng(&g_rng_sched) % (config.pct_span + 1);
    for (int i = 0; i < g_pct_n; i++)
      for (int j = i + 1; j < g_pct_n; j++)
        if (g_pct_at[j] < g_pct_at[i]) {
          uint64_t t = g_pct_at[i];
          g_pct_at[i] = g_pct_at[j];
          g_pct_at[j] = t;
        }
    g_pct_low = 1ull << 30;
  }
  for (int i = 0; i < config.nfaults; i++)
    if (config.faults[i].inc == config.inc && config.faults[i].kind == F_ALLOC)
      g_alloc_fail_at = config.faults[i].at;
  // from here on, allocate from the simulated arena
  g_arena[1].top = 0;
  g_cur_arena = 1;
  e.fn = fn;
  e.arg = arg;
  int id = spawn(entry, &e);
  g_t[id].client = true;
  arm_next();
  g_active = true;
  release_to(id);
  while (__atomic_load_n(&g_done_futex, __ATOMIC_SEQ_CST) == 0)
    raw_futex(&g_done_futex, FUTEX_WAIT_PRIVATE, 0);
  _exit(0);
}

} // namespace sim

// ------------------------------------------------------------ access hooks

using namespace sim;

__attribute__((noinline)) static void bad_access(uintptr_t a, bool w) {
  // never-allocated red zone or freed block
  fail("memory-safety", "%s of heap memory that is not allocated (offset 0x%llx)",
       w ? "write" : "read", (unsigned long long)(a - ARENA[1]));
}

#define PC ((uintptr_t)__builtin_return_address(0))
static inline __attribute__((always_inline)) void acc(void *p, bool w,
                                                      uintptr_t pc) {
  if (!g_active)
    return;
  uintptr_t a = (uintptr_t)p;
  uintptr_t d = a - ARENA[1];
  if (d < ARENA_SIZE && !((uint8_t *)SHADOW)[d >> 4])
    bad_access(a, w);
  if (++g_step >= g_next || (a >> 3) == g_watch)
    mem_slow(a, w, pc);
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { acc(p, true, PC); }
void __tsan_vptr_read(void **p) { acc(p, false, PC); }
#define RW(n)                                                                  \
  void __tsan_read##n(void *p) { acc(p, false, PC); }                          \
  void __tsan_write##n(void *p) { acc(p, true, PC); }                          \
  void __tsan_unaligned_read##n(void *p) { acc(p, false, PC); }                \
  void __tsan_unaligned_write##n(void *p) { acc(p, true, PC); }                \
  void __tsan_read##n##_pc(void *p, void *) { acc(p, false, PC); }             \
  void __tsan_write##n##_pc(void *p, void *) { acc(p, true, PC); }             \
  void __tsan_read_write##n(void *p) { acc(p, true, PC); }                     \
  void __tsan_unaligned_read_write##n(void *p) { acc(p, true, PC); }           \
  void __tsan_volatile_read##n(void *p) { acc(p, false, PC); }                 \
  void __tsan_volatile_write##n(void *p) { acc(p, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) {
  if (n) {
    acc(p, false, PC);
    acc((char *)p + n - 1, false, PC);
  }
}
void __tsan_write_range(void *p, unsigned long n) {
  if (n) {
    acc(p, true, PC);
    acc((char *)p + n - 1, true, PC);
  }
}
void *__tsan_memcpy(void *d, const void *s, unsigned long n) {
  __tsan_read_range((void *)s, n);
  __tsan_write_range(d, n);
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, unsigned long n) {
  __tsan_read_range((void *)s, n);
  __tsan_write_range(d, n);
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, unsigned long n) {
  __tsan_write_range(d, n);
  return memset(d, c, n);
}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

#define ATOMIC(bits, T)                                                        \
  T __tsan_atomic##bits##_load(const volatile T *a, int) {                     \
    if (active())                                                              \
      sync_point(20, (uintptr_t)a);                                            \
    acc((void *)a, false, PC);                                                 \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                               \
  }                                                                            \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int) {                  \
    if (active())                                                              \
      sync_point(21, (uintptr_t)a);                                            \
    acc((void *)a, true, PC);                                                  \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                  \
  }                                                                            \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) {                  \
    if (active())                                                              \
      sync_point(22, (uintptr_t)a);                                            \
    acc((void *)a, true, PC);                                                  \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                        \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) {                 \
    acc((void *)a, true, PC);                                                  \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) {                 \
    acc((void *)a, true, PC);                                                  \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) {                 \
    acc((void *)a, true, PC);                                                  \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) {                  \
    acc((void *)a, true, PC);                                                  \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                          \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) {                 \
    acc((void *)a, true, PC);                                                  \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v,  \
                                                    int, int) {                \
    if (active())                                                              \
      sync_point(23, (uintptr_t)a);                                            \
    acc((void *)a, true, PC);                                                  \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST,       \
                                       __ATOMIC_SEQ_CST);                      \
  }                                                                            \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v,    \
                                                  int x, int y) {              \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, x, y);       \
  }                                                                            \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int x, \
                                               int y) {                        \
    __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, x, y);             \
    return c;                                                                  \
  }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------ pthread seam

static inline int *m_lock(pthread_mutex_t *m) { return &m->__data.__lock; }

int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!active()) {
    *m_lock(m) = 1;
    return 0;
  }
  sync_point(1, (uintptr_t)m);
  int me = t_self + 1;
  if (*m_lock(m) && m->__data.__owner == me &&
      m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) {
    m->__data.__count++;
    return 0;
  }
  while (*m_lock(m))
    block_on((uintptr_t)m);
  *m_lock(m) = 1;
  m->__data.__owner = me;
  m->__data.__count = 1;
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!active()) {
    if (*m_lock(m))
      return EBUSY;
    *m_lock(m) = 1;
    return 0;
  }
  sync_point(2, (uintptr_t)m);
  int me = t_self + 1;
  if (*m_lock(m)) {
    if (m->__data.__owner == me &&
        m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) {
      m->__data.__count++;
      return 0;
    }
    return EBUSY;
  }
  *m_lock(m) = 1;
  m->__data.__owner = me;
  m->__data.__count = 1;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!active()) {
    *m_lock(m) = 0;
    return 0;
  }
  if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE && m->__data.__count > 1) {
    m->__data.__count--;
    return 0;
  }
  m->__data.__count = 0;
  m->__data.__owner = 0;
  *m_lock(m) = 0;
  wake_key((uintptr_t)m, MAX_T);
  sync_point(3, (uintptr_t)m);
  return 0;
}
static uint64_t ts_ns(const struct timespec *ts) {
  return (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t,
                            const struct timespec *ts) {
  if (!active())
    return pthread_mutex_lock(m);
  sync_point(1, (uintptr_t)m);
  while (*m_lock(m))
    if (!block_timed((uintptr_t)m, ts_ns(ts)) && *m_lock(m))
      return ETIMEDOUT;
  *m_lock(m) = 1;
  m->__data.__owner = t_self + 1;
  m->__data.__count = 1;
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
  return pthread_mutex_clocklock(m, 0, ts);
}
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }

int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) {
  memset(c, 0, sizeof *c);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!active())
    return 0;
  *m_lock(m) = 0;
  m->__data.__owner = 0;
  wake_key((uintptr_t)m, MAX_T);
  g_step++;
  block_on((uintptr_t)c);
  return pthread_mutex_lock(m);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t,
                           const struct timespec *ts) {
  if (!active())
    return 0;
  *m_lock(m) = 0;
  m->__data.__owner = 0;
  wake_key((uintptr_t)m, MAX_T);
  g_step++;
  bool ok = block_timed((uintptr_t)c, ts_ns(ts));
  pthread_mutex_lock(m);
  return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m,
                           const struct timespec *ts) {
  return pthread_cond_clockwait(c, m, 0, ts);
}
int pthread_cond_signal(pthread_cond_t *c) {
  if (!active())
    return 0;
  sync_point(4, (uintptr_t)c);
  wake_key((uintptr_t)c, 1);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!active())
    return 0;
  sync_point(5, (uintptr_t)c);
  wake_key((uintptr_t)c, MAX_T);
  return 0;
}

// reader/writer lock: readers counted in __readers, writer id in __cur_writer
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) {
  memset(l, 0, sizeof *l);
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  if (!active())
    return 0;
  sync_point(6, (uintptr_t)l);
  while (l->__data.__cur_writer)
    block_on((uintptr_t)l);
  l->__data.__readers++;
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
  if (!active())
    return 0;
  sync_point(6, (uintptr_t)l);
  if (l->__data.__cur_writer)
    return EBUSY;
  l->__data.__readers++;
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  if (!active())
    return 0;
  sync_point(7, (uintptr_t)l);
  while (l->__data.__cur_writer || l->__data.__readers)
    block_on((uintptr_t)l);
  l->__data.__cur_writer = t_self + 1;
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
  if (!active())
    return 0;
  sync_point(7, (uintptr_t)l);
  if (l->__data.__cur_writer || l->__data.__readers)
    return EBUSY;
  l->__data.__cur_writer = t_self + 1;
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (!active())
    return 0;
  if (l->__data.__cur_writer == t_self + 1)
    l->__data.__cur_writer = 0;
  else if (l->__data.__readers)
    l->__data.__readers--;
  wake_key((uintptr_t)l, MAX_T);
  sync_point(8, (uintptr_t)l);
  return 0;
}

int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  int *s = (int *)o;
  if (*s == 2)
    return 0;
  if (!active()) {
    *s = 1;
    fn();
    *s = 2;
    return 0;
  }
  for (;;) {
    if (*s == 2)
      return 0;
    if (*s == 0) {
      *s = 1;
      try {
        fn();
      } catch (...) {
        *s = 0;
        wake_key((uintptr_t)o, MAX_T);
        throw;
      }
      *s = 2;
      wake_key((uintptr_t)o, MAX_T);
      return 0;
    }
    block_on((uintptr_t)o);
  }
}

int pthread_create(pthread_t *out, const pthread_attr_t *at,
                   void *(*fn)(void *), void *arg) {
  if (!active()) {
    create_fn f = (create_fn)real_sym("pthread_create");
    return f(out, at, fn, arg);
  }
  int id = spawn(fn, arg);
  *out = (pthread_t)(id + 100000);
  mix_sched(((uint64_t)t_self << 56) ^ 0xC0FFEE ^ ((uint64_t)id << 32));
  sync_point(10, id);
  return 0;
}
int pthread_join(pthread_t t, void **ret) {
  if (!active()) {
    join_fn f = (join_fn)real_sym("pthread_join");
    return f(t, ret);
  }
  int id = (int)t - 100000;
  if (id < 0 || id >= g_nt)
    return ESRCH;
  sync_point(11, id);
  while (g_t[id].state != T_DONE)
    block_on((uintptr_t)&g_t[id]);
  g_t[id].joined = true;
  if (ret)
    *ret = g_t[id].ret;
  return 0;
}
int pthread_detach(pthread_t t) {
  if (!active()) {
    typedef int (*fn)(pthread_t);
    return ((fn)real_sym("pthread_detach"))(t);
  }
  int id = (int)t - 100000;
  if (id >= 0 && id < g_nt)
    g_t[id].detached = true;
  return 0;
}
pthread_t pthread_self(void) {
  if (active())
    return (pthread_t)(t_self + 100000);
  typedef pthread_t (*fn)(void);
  static fn f;
  if (!f)
    f = (fn)real_sym("pthread_self");
  return f();
}
int sched_yield(void) {
  if (!active()) {
    long r;
    __asm__ volatile("syscall"
                     : "=a"(r)
                     : "a"((long)SYS_sched_yield)
                     : "rcx", "r11", "memory");
    return 0;
  }
  // give way: the yielding thread asks for someone else to run
  int me = t_self;
  g_step++;
  g_res->sync_points++;
  if (g_step > g_cfg.max_steps)
    budget();
  int c[MAX_T];
  int n = runnable(c, me);
  if (n == 0) {
    bool others = false;
    for (int i = 0; i < g_nt; i++)
      if (i != me && g_t[i].state == T_RUN) {
        undelay(i);
        others = true;
      }
    if (!others)
      return 0;
    n = runnable(c, me);
    if (n == 0)
      return 0;
  }
  int next;
  if (g_cfg.strategy == S_EXPLICIT) {
    next = c[0];
    for (int k = 0; k < n; k++)
      if (c[k] > me) {
        next = c[k];
        break;
      }
    int t = explicit_pick(c, n, FORCED);
    if (t >= 0)
      next = t;
  } else if (g_cfg.strategy == S_PCT) {
    g_t[me].prio = --g_pct_low;
    next = c[0];
    for (int k = 1; k < n; k++)
      if (g_t[c[k]].prio > g_t[next].prio)
        next = c[k];
  } else {
    next = c[rng(&g_rng_sched) % n];
  }
  record(next, FORCED);
  switch_to(me, next);
  return 0;
}

static int sleep_ns(uint64_t ns) {
  g_t[t_self].wake_at = now_ns() + ns;
  g_step++;
  block_current(T_SLEEP);
  return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (!active()) {
    typedef int (*fn)(const struct timespec *, struct timespec *);
    return ((fn)real_sym("nanosleep"))(a, b);
  }
  return sleep_ns(ts_ns(a));
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *a,
                    struct timespec *b) {
  if (!active()) {
    typedef int (*fn)(clockid_t, int, const struct timespec *,
                      struct timespec *);
    return ((fn)real_sym("clock_nanosleep"))(id, flags, a, b);
  }
  if (flags & TIMER_ABSTIME) {
    uint64_t now = now_ns();
    return sleep_ns(ts_ns(a) > now ? ts_ns(a) - now : 0);
  }
  return sleep_ns(ts_ns(a));
}
int usleep(useconds_t us) {
  if (!active()) {
    struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
  }
  return sleep_ns((uint64_t)us * 1000);
}
unsigned sleep(unsigned s) {
  struct timespec ts = {(time_t)s, 0};
  nanosleep(&ts, nullptr);
  return 0;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (active()) {
    uint64_t n = now_ns();
    ts->tv_sec = n / 1000000000ull;
    ts->tv_nsec = n % 1000000000ull;
    return 0;
  }
  return (int)::syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval *tv, void *) {
  struct timespec ts;
  clock_gettime(0, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(0, &ts);
  if (t)
    *t = ts.tv_sec;
  return ts.tv_sec;
}
int get_nprocs(void) {
  if (active())
    return g_cfg.hw;
  return 8;
}

// std::atomic::wait/notify and libstdc++'s static-initialisation guards
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long),
       d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && active()) {
    int op = (int)b & 127;
    int *addr = (int *)a;
    if (op == 0 || op == 9) {
      sync_point(12, (uintptr_t)addr);
      if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (int)c) {
        errno = EAGAIN;
        return -1;
      }
      if (d) {
        uint64_t t = ts_ns((struct timespec *)d);
        if (op == 0)
          t += now_ns();
        if (!block_timed((uintptr_t)addr, t)) {
          errno = ETIMEDOUT;
          return -1;
        }
      } else {
        block_on((uintptr_t)addr);
      }
      return 0;
    }
    if (op == 1 || op == 10) {
      int k = wake_key((uintptr_t)addr, (int)c);
      sync_point(13, (uintptr_t)addr);
      return k;
    }
  }
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  if (ret < 0 && ret > -4096) {
    errno = (int)-ret;
    return -1;
  }
  return ret;
}

// ------------------------------------------------------------ fatal exits

void __assert_fail(const char *expr, const char *file, unsigned line,
                   const char *fn) {
  (void)fn;
  if (g_res && t_self >= 0) {
    const char *b = strrchr(file, '/');
    char buf[512];
    (void)line; // line numbers move with unrelated edits
    snprintf(buf, sizeof buf, "assertion failed in %s: %s", b ? b + 1 : file,
             expr);
    die_abort(buf);
  }
  fprintf(stderr, "%s:%u: assertion failed: %s\n", file, line, expr);
  _exit(95);
}
void abort(void) {
  if (g_res && t_self >= 0)
    die_abort("abort called");
  _exit(94);
}
}
