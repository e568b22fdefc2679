/* Controlled scheduler for code compiled with the ThreadSanitizer instrumentation pass (its runtime is not
 * used: this file takes its place). Every memory access and atomic operation of the instrumented code calls
 * in here. Between rt_begin and rt_end exactly one registered thread runs; control moves from one to another
 * only at accesses to candidate words (words that one thread touches and another then writes, in some
 * execution seen so far), as a schedule says, or when a thread ends or has to wait. */
#define _GNU_SOURCE
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <errno.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define MAXT 4
#define MAXEV 200000
#define MAXSW 64
#define TAB (1u << 20)
#define ARENA (256ul << 20)

struct ev { uint8_t thread, kind, others, size; uint32_t run; uint64_t addr; };
/* kind: 1 write, 2 atomic; run: how many identical loads in a row; others: threads that could have run */
struct shared {
  uint32_t n_ev, overflow, deadlock, n_new, switches;
  uint32_t horizon; /* the block after the last planned switch used nothing another thread wrote after this many shared accesses */
  struct ev ev[MAXEV];
  uint64_t fresh[4096]; /* words that turned out to be candidates */
};
static struct shared *sh;
static uint64_t cand[TAB];          /* open addressing, 0 = empty: known before the run */
static uint64_t cands[TAB / 4]; static uint32_t n_cand;
/* words used in this run: pages of 512 words, found by hash, handed out in order */
#define NPG (1u << 15)
struct cell { uint32_t stamp; /* who wrote it last, and when */ uint8_t touched; /* by thread; 0x80: a candidate */ };
struct page { uint64_t id; struct cell *c; };
static struct page pages[NPG], tlb[256]; static struct cell *pool; static size_t pool_used; static int in_block;
#define POOL (8ul << 20)
static volatile int active;
static int n_threads;
static struct { uint32_t at; uint8_t to; } plan[MAXSW];
static uint32_t n_plan, next_plan;
static int turn_word[MAXT];         /* futex words: 1 = may run */
static int cur;
enum { READY, BLOCKED, DONE };
static int state[MAXT];
static uintptr_t wait_addr[MAXT];
static __thread int self = -1;
static __thread uintptr_t stk_lo, stk_hi;
static __thread uint64_t last_addr, last_val; static __thread uint32_t last_run;
static __thread int inside;
static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static void die(const char *m) { raw(SYS_write, 2, (long)m, strlen(m), 0, 0, 0); raw(SYS_exit_group, 97, 0, 0, 0, 0, 0); }

/* ---- allocation: per-thread arenas, nothing reused, so that addresses do not depend on the schedule ---- */
static char *arena[MAXT + 1]; static size_t used[MAXT + 1]; static int bump;
void rt_arenas(void) {
  for (int i = 0; i <= MAXT; i++)
    arena[i] = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static int in_arena(void *p) { for (int i = 0; i <= MAXT; i++) if ((char *)p >= arena[i] && (char *)p < arena[i] + ARENA) return 1; return 0; }
void *rt_alloc(size_t n, size_t al) {
  if (!bump) { void *p = 0; if (al < 16) al = 16; return posix_memalign(&p, al, n) ? 0 : p; }
  int k = self >= 0 ? self : MAXT;
  if (al < 8) al = 8;
  size_t take = (n + al + 7) & ~7ul, o = __atomic_fetch_add(&used[k], take, __ATOMIC_SEQ_CST);
  if (o + take > ARENA) die("arena full\n");
  return (char *)(((uintptr_t)arena[k] + o + al - 1) & ~(al - 1));
}
void rt_free(void *p) { if (!in_arena(p)) free(p); }

/* ---- the parent's side ---- */
void rt_setup(void) {
  sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  rt_arenas();
}
static inline struct cell *cell(uintptr_t w) {
  uint64_t id = (w >> 9) + 1;
  struct page *l = &tlb[id & 255];
  if (l->id == id) return l->c + (w & 511);
  uint32_t i = (uint32_t)(id * 0x9E3779B97F4A7C15ull >> 49), k = 0;
  while (pages[i].id && pages[i].id != id) { i = (i + 1) & (NPG - 1); if (++k > NPG / 2) die("table full\n"); }
  if (!pages[i].id) {
    pages[i].id = id; pages[i].c = pool + pool_used; pool_used += 512;
    if (pool_used > POOL) die("pool full\n");
  }
  *l = pages[i];
  return l->c + (w & 511);
}
int rt_cand_add(uint64_t w) {
  for (uint32_t i = (uint32_t)(w * 0x9E3779B97F4A7C15ull >> 44);; i = (i + 1) & (TAB - 1)) { if (cand[i] == w) return 0; if (!cand[i]) { if (n_cand == TAB / 4) die("too many shared words\n"); cand[i] = w; cands[n_cand++] = w; return 1; } }
}
void rt_cand_clear(void) { if (n_cand) memset(cand, 0, sizeof cand); n_cand = 0; }
struct shared *rt_shared(void) { return sh; }
void rt_reset(void) { sh->n_ev = sh->overflow = sh->deadlock = sh->n_new = sh->switches = sh->horizon = 0; }

/* ---- the child's side ---- */
void rt_bump(int on) { bump = on; }
void rt_child(int threads, const uint32_t *at, const uint8_t *to, uint32_t n) {
  n_threads = threads; n_plan = n > MAXSW ? MAXSW : n; next_plan = 0;
  for (uint32_t i = 0; i < n_plan; i++) { plan[i].at = at[i]; plan[i].to = to[i]; }
  pool = mmap(0, POOL * sizeof *pool, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (uint32_t i = 0; i < n_cand; i++) cell(cands[i])->touched = 0x80;
  bump = 1; in_block = 0;
}
static void wake(int t) { __atomic_store_n(&turn_word[t], 1, __ATOMIC_SEQ_CST); raw(SYS_futex, (long)&turn_word[t], 1 | 128, 1, 0, 0, 0); }
static void await_turn(int t) {
  while (!__atomic_load_n(&turn_word[t], __ATOMIC_SEQ_CST)) raw(SYS_futex, (long)&turn_word[t], 0 | 128, 0, 0, 0, 0);
  turn_word[t] = 0; cur = t;
}
static int pick(int from) { for (int k = 1; k <= n_threads; k++) { int t = (from + k) % n_threads; if (t != from && state[t] == READY) return t; } return -1; }
static void go(int t) { int me = self; in_block = 0; sh->switches++; wake(t); await_turn(me); }
static int registered;
int rt_registered(void) { return __atomic_load_n(&registered, __ATOMIC_SEQ_CST); }
int rt_active(void) { return active; }
void rt_register(int t) {
  pthread_attr_t a; void *lo; size_t n;
  pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &lo, &n); pthread_attr_destroy(&a);
  stk_lo = (uintptr_t)lo; stk_hi = stk_lo + n; self = t; inside = 0;
  __atomic_fetch_add(&registered, 1, __ATOMIC_SEQ_CST);
  await_turn(t);
}
void rt_start(int first) { active = 1; wake(first); }
void rt_done(void) {
  int me = self; state[me] = DONE; self = -1; in_block = 0;
  int t = -1;
  for (int k = 1; k <= n_threads; k++) { int u = (me + k) % n_threads; if (state[u] == READY) { t = u; break; } }
  if (t >= 0) { wake(t); return; }
  for (int u = 0; u < n_threads; u++) if (state[u] == BLOCKED) { sh->deadlock = 1; raw(SYS_exit_group, 96, 0, 0, 0, 0, 0); }
  active = 0;
}
/* the running thread has to wait for something only another thread can do */
static void step_aside(int blocked, uintptr_t a, int val) {
  int me = self;
  state[me] = blocked ? BLOCKED : READY; wait_addr[me] = a;
  int t = pick(me);
  if (t < 0) {
    if (blocked) { /* unless a thread that is not under control can wake it */
      struct timespec ts = { 5, 0 };
      raw(SYS_futex, a, 0 | 128, val, (long)&ts, 0, 0);
      if (*(volatile int *)a == val) { sh->deadlock = 1; raw(SYS_exit_group, 96, 0, 0, 0, 0, 0); }
      state[me] = READY;
    }
    return;
  }
  go(t);
}
static void event_(uintptr_t a, unsigned size, int kind, uint64_t val) {
  inside = 1;
  int is_cand = 0;
  for (uintptr_t w = a >> 3; w <= (a + size - 1) >> 3; w++) {
    struct cell *c = cell(w);
    uint8_t me = 1 << self;
    if (c->touched & 0x80) is_cand = 1;
    else if ((kind & 1) && (c->touched & ~me)) {
      is_cand = 1; c->touched |= 0x80;
      if (sh->n_new < 4096) sh->fresh[sh->n_new++] = w; else sh->overflow = 1;
    }
    c->touched |= me;
    if (in_block && c->stamp && (c->stamp & 7) != (uint32_t)self + 1 && c->stamp >> 3 > sh->horizon) sh->horizon = c->stamp >> 3;
    if (kind & 1) c->stamp = sh->n_ev << 3 | (self + 1);
  }
  if (is_cand) {
    if (!(kind & 1) && a == last_addr && val == last_val) last_run++; else last_run = 0;
    last_addr = a; last_val = val;
    uint32_t n = sh->n_ev, others = 0;
    for (int t = 0; t < n_threads; t++) if (t != self && state[t] == READY) others |= 1u << t;
    if (n < MAXEV) { sh->ev[n] = (struct ev){ self, kind, others, size, last_run, a }; sh->n_ev = n + 1; } else sh->overflow = 1;
    if (next_plan < n_plan && plan[next_plan].at == n) {
      int to = plan[next_plan].to; next_plan++;
      if (to != self && state[to] == READY) { int me = self; sh->switches++; in_block = next_plan == n_plan; wake(to); await_turn(me); }
    } else if (last_run > 2000) { last_run = 0; step_aside(0, 0, 0); } /* spinning */
  }
  inside = 0;
}
static inline void event(uintptr_t a, unsigned size, int kind, uint64_t val) {
  if (!active || self < 0 || inside || (a >= stk_lo && a < stk_hi)) return;
  event_(a, size, kind, val);
}

/* ---- system calls a thread could wait in ---- */
long syscall(long n, ...) {
  va_list l; va_start(l, n);
  long a = va_arg(l, long), b = va_arg(l, long), c = va_arg(l, long), d = va_arg(l, long), e = va_arg(l, long), f = va_arg(l, long);
  va_end(l);
  if (active && self >= 0 && n == SYS_futex) {
    int op = b & 127;
    if (op == 0 || op == 9) {
      if (*(volatile int *)a != (int)c) { errno = EAGAIN; return -1; }
      if (d) { step_aside(0, 0, 0); errno = ETIMEDOUT; return -1; }
      inside = 1; step_aside(1, a, (int)c); inside = 0;
      return 0;
    }
    if (op == 1 || op == 10) {
      long k = 0;
      for (int t = 0; t < n_threads && k < c; t++) if (state[t] == BLOCKED && wait_addr[t] == (uintptr_t)a) { state[t] = READY; k++; }
      return k;
    }
  }
  if (n == SYS_getrandom) { memset((void *)a, 0x5a, b); return b; }
  long r = raw(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
ssize_t getrandom(void *p, size_t n, unsigned f) { (void)f; memset(p, 0x5a, n); return n; }
int sched_yield(void) { if (active && self >= 0 && !inside) { inside = 1; step_aside(0, 0, 0); inside = 0; return 0; } return raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
int nanosleep(const struct timespec *a, struct timespec *b) { if (active && self >= 0) { sched_yield(); return 0; } return raw(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0) < 0 ? -1 : 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { if (active && self >= 0) { sched_yield(); return 0; } return -raw(SYS_clock_nanosleep, c, f, (long)a, (long)b, 0, 0); }

/* ---- what the instrumentation calls ---- */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_update(void *p, void *v) { (void)p; (void)v; }
void __tsan_vptr_read(void *p) { (void)p; }
void __tsan_acquire(void *p) { (void)p; }
void __tsan_release(void *p) { (void)p; }
static uint64_t peek(void *p, unsigned n) { uint64_t v = 0; memcpy(&v, p, n > 8 ? 8 : n); return v; }
#define RW(n) \
  void __tsan_read##n(void *p) { event((uintptr_t)p, n, 0, active ? peek(p, n) : 0); } \
  void __tsan_write##n(void *p) { event((uintptr_t)p, n, 1, 0); } \
  void __tsan_read_write##n(void *p) { event((uintptr_t)p, n, 1, 0); } \
  void __tsan_unaligned_read##n(void *p) { event((uintptr_t)p, n, 0, active ? peek(p, n) : 0); } \
  void __tsan_unaligned_write##n(void *p) { event((uintptr_t)p, n, 1, 0); } \
  void __tsan_unaligned_read_write##n(void *p) { event((uintptr_t)p, n, 1, 0); } \
  void __tsan_volatile_read##n(void *p) { event((uintptr_t)p, n, 0, active ? peek(p, n) : 0); } \
  void __tsan_volatile_write##n(void *p) { event((uintptr_t)p, n, 1, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
static void range(uintptr_t a, size_t n, int kind) {
  if (!active || self < 0) return;
  for (uintptr_t w = a; n && w < a + n; w = (w | 7) + 1) event(w, 1, kind, kind ? 0 : *(uint8_t *)w);
}
void __tsan_read_range(void *p, size_t n) { range((uintptr_t)p, n, 0); }
void __tsan_write_range(void *p, size_t n) { range((uintptr_t)p, n, 1); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { range((uintptr_t)s, n, 0); range((uintptr_t)d, n, 1); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { range((uintptr_t)s, n, 0); range((uintptr_t)d, n, 1); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { range((uintptr_t)d, n, 1); return memset(d, c, n); }
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T *p, int m) { (void)m; event((uintptr_t)p, b / 8, 2, active ? peek((void *)p, b / 8) : 0); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##b##_store(volatile T *p, T v, int m) { (void)m; event((uintptr_t)p, b / 8, 3, 0); __atomic_store_n(p, v, 5); } \
  T __tsan_atomic##b##_exchange(volatile T *p, T v, int m) { (void)m; event((uintptr_t)p, b / 8, 3, 0); return __atomic_exchange_n(p, v, 5); } \
  T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int m) { (void)m; event((uintptr_t)p, b / 8, 3, 0); return __atomic_fetch_add(p, v, 5); } \
  T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int m) { (void)m; event((uintptr_t)p, b / 8, 3, 0); return __atomic_fetch_sub(p, v, 5); } \
  T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int m) { (void)m; event((uintptr_t)p, b / 8, 3, 0); return __atomic_fetch_and(p, v, 5); } \
  T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int m) { (void)m; event((uintptr_t)p, b / 8, 3, 0); return __atomic_fetch_or(p, v, 5); } \
  T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int m) { (void)m; event((uintptr_t)p, b / 8, 3, 0); return __atomic_fetch_xor(p, v, 5); } \
  T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int m) { (void)m; event((uintptr_t)p, b / 8, 3, 0); return __atomic_fetch_nand(p, v, 5); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T c, T v, int m, int g) { (void)m; (void)g; event((uintptr_t)p, b / 8, 3, 0); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *c, T v, int m, int g) { (void)m; (void)g; event((uintptr_t)p, b / 8, 3, 0); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *c, T v, int m, int g) { (void)m; (void)g; event((uintptr_t)p, b / 8, 3, 0); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { (void)m; __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int m) { (void)m; }
