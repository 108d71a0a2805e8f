// Deterministic thread scheduler behind ThreadSanitizer's instrumentation interface.
//
// The extension is compiled with -fsanitize=thread but linked with this runtime, so
// every memory access and atomic operation of the real code is a call in here.
// Exactly one simulated thread runs at a time (it holds the baton); at each such call
// a seeded PRNG, or a recorded schedule, decides whether another thread goes on.
// A thread that is switched out gives up the interpreter lock, as on a free-threaded
// interpreter or with one lock per interpreter (both of which the module declares).
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#define API extern "C" __attribute__((visibility("default")))

enum { MAXT = 8, MAXSW = 1 << 16 };

struct Switch { int64_t step; int32_t to; int32_t why; };

static struct State {
  int on;                 // a run is in progress
  int n;                  // simulated threads
  int cur;                // holder of the baton
  int done[MAXT];
  int waiting[MAXT];      // blocked on a lock: not worth running until something changed
  sem_t sem[MAXT];
  int64_t step, since;
  uint64_t rng;
  double pg, ph;          // switch probability at shared (static) memory / elsewhere
  int replay;
  Switch plan[MAXSW];
  int64_t nplan, iplan;
  Switch log[MAXSW];
  int64_t nlog;
  int64_t stamp;
  int64_t points_static, points_other, points_sync, points_shared, blocked;
  int64_t max_since, max_step;
  int64_t clock_base, clock_div;   // simulated seconds = base + steps / div
  uint64_t entropy;
} S;

static __thread int me = -1;
static sem_t ready, end;
static uintptr_t lo, hi, base;

// Which code is running: only the library's own code is preempted; inside pybind11 the
// interpreter lock protects what is shared, and that is pybind11's business.
enum { LIB = 1, GLUE = 2, INHERIT = 0 };
struct Func { uintptr_t lo, hi; int cls; };
static Func *funcs;
static int64_t nfuncs;
static __thread unsigned char stack_cls[4096];
static __thread int depth;

static int classify(uintptr_t pc) {
  pc -= base;
  int64_t a = 0, b = nfuncs - 1;
  while (a <= b) {
    int64_t m = (a + b) / 2;
    if (pc < funcs[m].lo) b = m - 1;
    else if (pc >= funcs[m].hi) a = m + 1;
    else return funcs[m].cls;
  }
  return GLUE;
}

static uint64_t rnd() {
  uint64_t z = (S.rng += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static double unif() { return (double)(rnd() >> 11) * (1.0 / 9007199254740992.0); }

static void stuck(int code) {
  // exit codes are the child's report: 71 = deadlock, 72 = no progress
  _exit(code);
}

static void hand_over(int to, int why) {
  if (S.nlog < MAXSW) { S.log[S.nlog].step = S.step; S.log[S.nlog].to = to; S.log[S.nlog].why = why; S.nlog++; }
  S.since = 0;
  int self = me;
  S.cur = to;
  PyThreadState *ts = nullptr;
  if (PyGILState_Check()) ts = PyEval_SaveThread();
  sem_post(&S.sem[to]);
  while (sem_wait(&S.sem[self]) != 0) {}
  if (ts) PyEval_RestoreThread(ts);
}

static int runnable(int t) { return t != me && !S.done[t] && !S.waiting[t]; }

static int pick_other() {
  int c[MAXT], k = 0;
  for (int t = 0; t < S.n; t++) if (runnable(t)) c[k++] = t;
  if (!k) return -1;
  return S.replay ? c[0] : c[rnd() % k];
}

// the thread the recorded schedule names for this step, or -1
static int planned() {
  while (S.iplan < S.nplan && S.plan[S.iplan].step < S.step) S.iplan++;
  if (S.iplan < S.nplan && S.plan[S.iplan].step == S.step) {
    int t = S.plan[S.iplan++].to;
    if (t >= 0 && t < S.n && runnable(t)) return t;
  }
  return -1;
}

static int pick_forced() {      // someone else has to run
  int t = S.replay ? planned() : -1;
  return t >= 0 ? t : pick_other();
}

static void point(int kind) {   // 0 other, 1 static, 2 synchronisation
  S.step++;
  S.since++;
  if (kind == 1) S.points_static++; else if (kind == 0) S.points_other++; else S.points_sync++;
  if (S.step > S.max_step) stuck(72);
  int to = -1, why = 0;
  if (S.replay) {
    to = planned();
  } else {
    double p = kind ? S.pg : S.ph;
    if (p > 0 && unif() < p) to = pick_other();
  }
  if (to < 0 && S.since > S.max_since) { to = pick_other(); why = 1; }
  if (to >= 0) hand_over(to, why);
}

static inline int active() {
  return S.on && me >= 0 && S.cur == me && depth > 0 && depth <= 4096 && stack_cls[depth - 1] == LIB;
}
static inline int in_sim() { return S.on && me >= 0 && S.cur == me; }

// Which 8-byte words outside static memory more than one thread has touched, with at least
// one write: those are scheduled like static memory.  Exact (no collisions), so it depends
// on nothing but the run.
enum { HB = 20 };
static uint64_t *hkeys;
static uint8_t *hval;           // bits 0-3: threads, bit 7: written
static int64_t hcount;
static int shared_word(uintptr_t p, int write) {
  if (!hkeys) {
    hkeys = (uint64_t *)calloc(1 << HB, sizeof(uint64_t));
    hval = (uint8_t *)calloc(1 << HB, 1);
    if (!hkeys || !hval) abort();
  }
  uint64_t k = p >> 3;
  uint64_t i = (k * 0x9e3779b97f4a7c15ull) >> (64 - HB);
  while (hkeys[i] && hkeys[i] != k) i = (i + 1) & ((1 << HB) - 1);
  if (!hkeys[i]) {
    if (hcount > (1 << HB) / 2) return 0;
    hkeys[i] = k;
    hcount++;
  }
  hval[i] |= (uint8_t)(1 << (me & 3)) | (write ? 0x80 : 0);
  uint8_t t = hval[i] & 15;
  return (hval[i] & 0x80) && (t & (t - 1));
}

static inline int on_stack(uintptr_t p) {
  uintptr_t here = (uintptr_t)__builtin_frame_address(0);
  return p - here < (64u << 10);
}

static inline void access(const void *a, int write) {
  if (!active()) return;
  uintptr_t p = (uintptr_t)a;
  if (p >= lo && p < hi) return point(1);
  if (on_stack(p)) return point(0);
  int hot = !S.replay && shared_word(p, write);
  if (hot) S.points_shared++;
  point(hot);
}

// another thread may have released what a blocked one waits for
static void wake() { for (int t = 0; t < S.n; t++) S.waiting[t] = 0; }

// the calling thread cannot go on: run another one
static void block() {
  S.blocked++;
  S.waiting[me] = 1;
  S.step++;
  int to = pick_forced();
  if (to < 0) stuck(71);
  hand_over(to, 2);
  S.waiting[me] = 0;
}

// ------------------------------------------------------------------ control (ctypes)

static int find_ext(struct dl_phdr_info *info, size_t, void *) {
  if (!info->dlpi_name || !strstr(info->dlpi_name, "_gaussianfft")) return 0;
  base = info->dlpi_addr;
  for (int i = 0; i < info->dlpi_phnum; i++) {
    const ElfW(Phdr) &p = info->dlpi_phdr[i];
    if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) {
      uintptr_t a = info->dlpi_addr + p.p_vaddr, b = a + p.p_memsz;
      if (!lo || a < lo) lo = a;
      if (b > hi) hi = b;
    }
  }
  return 1;
}

API void sched_setup(int n, uint64_t seed, double pg, double ph) {
  memset(&S, 0, sizeof S);
  if (hkeys) { memset(hkeys, 0, sizeof(uint64_t) << HB); memset(hval, 0, 1 << HB); }
  hcount = 0;
  depth = 0;
  S.n = n; S.rng = seed; S.pg = pg; S.ph = ph;
  S.max_since = 3000000; S.max_step = 400000000;
  for (int i = 0; i < n; i++) sem_init(&S.sem[i], 0, 0);
  sem_init(&ready, 0, 0);
  sem_init(&end, 0, 0);
  dl_iterate_phdr(find_ext, nullptr);
}
API void sched_clock(int64_t base, int64_t div, uint64_t entropy) { S.clock_base = base; S.clock_div = div; S.entropy = entropy; }
API void sched_funcs(int64_t n, const int64_t *tab) {
  funcs = (Func *)malloc(sizeof(Func) * (n ? n : 1));
  nfuncs = n;
  for (int64_t i = 0; i < n; i++) { funcs[i].lo = tab[3 * i]; funcs[i].hi = tab[3 * i + 1]; funcs[i].cls = (int)tab[3 * i + 2]; }
}
API void sched_plan(int64_t step, int to) {
  S.replay = 1;
  if (S.nplan < MAXSW) { S.plan[S.nplan].step = step; S.plan[S.nplan].to = to; S.nplan++; }
}
API void sched_replay(void) { S.replay = 1; }
// runs the simulation to its end.  The caller, and every thread that has finished, sleeps
// until all have: nothing but the simulated threads runs meanwhile.
API void sched_start(int first) {
  S.cur = first; S.on = 1;
  sem_post(&S.sem[first]);
  while (sem_wait(&end) != 0) {}
}
API void sched_await(void) { while (sem_wait(&ready) != 0) {} }
// a simulated thread enters: blocks until it is given the baton
API void sched_enter(int t) { me = t; sem_post(&ready); while (sem_wait(&S.sem[t]) != 0) {} }
API int64_t sched_stamp(void) { if (in_sim()) point(2); return ++S.stamp; }
API void sched_leave(void) {
  S.done[me] = 1;
  wake();
  S.step++;
  int to = pick_forced();
  if (S.nlog < MAXSW) { S.log[S.nlog].step = S.step; S.log[S.nlog].to = to; S.log[S.nlog].why = 3; S.nlog++; }
  me = -1;
  S.since = 0;
  if (to < 0) {
    S.on = 0;
    for (int i = 0; i < S.n; i++) sem_post(&end);
    return;
  }
  S.cur = to;
  sem_post(&S.sem[to]);
  while (sem_wait(&end) != 0) {}
}
API int64_t sched_get(int what) {
  switch (what) {
    case 0: return S.step; case 1: return S.nlog; case 2: return S.points_static; case 3: return S.points_other;
    case 4: return S.points_sync; case 5: return S.blocked; case 6: return S.points_shared;
  }
  return -1;
}
API int64_t sched_log_step(int64_t i) { return S.log[i].step; }
API int sched_log_to(int64_t i) { return S.log[i].to; }
API int sched_log_why(int64_t i) { return S.log[i].why; }

// ------------------------------------------------------------------ blocking primitives
// The extension and what is linked into it reach these through --wrap.

API int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!in_sim()) return pthread_mutex_lock(m);
  if (active()) point(2);
  int r;
  while ((r = pthread_mutex_trylock(m)) == 16 /* EBUSY */) block();
  return r;
}
API int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  if (active()) point(2);
  return pthread_mutex_trylock(m);
}
API int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  int r = pthread_mutex_unlock(m);
  if (in_sim()) { wake(); if (active()) point(2); }
  return r;
}
API int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if (!in_sim()) return pthread_rwlock_rdlock(m);
  if (active()) point(2);
  int r;
  while ((r = pthread_rwlock_tryrdlock(m)) == 16) block();
  return r;
}
API int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  if (!in_sim()) return pthread_rwlock_wrlock(m);
  if (active()) point(2);
  int r;
  while ((r = pthread_rwlock_trywrlock(m)) == 16) block();
  return r;
}
API int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) {
  int r = pthread_rwlock_unlock(m);
  if (in_sim()) { wake(); if (active()) point(2); }
  return r;
}
API int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!in_sim()) return pthread_cond_wait(c, m);
  // a spurious wake-up after the other threads have run
  pthread_mutex_unlock(m);
  wake();
  block();
  return __wrap_pthread_mutex_lock(m);
}
// once-flags, with glibc's own encoding: low bits 0 fresh, 1 running, 2 done
API int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
  if (!in_sim()) return pthread_once(o, f);
  if (active()) point(2);
  while ((__atomic_load_n(o, __ATOMIC_ACQUIRE) & 3) == 1) block();
  if (__atomic_load_n(o, __ATOMIC_ACQUIRE) & 2) return 0;
  __atomic_store_n(o, 1, __ATOMIC_RELEASE);
  try { f(); }
  catch (...) { __atomic_store_n(o, 0, __ATOMIC_RELEASE); wake(); throw; }
  __atomic_store_n(o, 2, __ATOMIC_RELEASE);
  wake();
  return 0;
}
// function-local statics
API int __wrap___cxa_guard_acquire(uint64_t *g) {
  if (__atomic_load_n((uint8_t *)g, __ATOMIC_ACQUIRE)) return 0;
  uint8_t *busy = (uint8_t *)g + 1;
  if (in_sim()) {
    if (active()) point(2);
    while (__atomic_load_n(busy, __ATOMIC_ACQUIRE)) block();
  } else {
    while (__atomic_load_n(busy, __ATOMIC_ACQUIRE)) usleep(50);
  }
  if (__atomic_load_n((uint8_t *)g, __ATOMIC_ACQUIRE)) return 0;
  __atomic_store_n(busy, 1, __ATOMIC_RELEASE);
  return 1;
}
API void __wrap___cxa_guard_release(uint64_t *g) {
  __atomic_store_n((uint8_t *)g, 1, __ATOMIC_RELEASE);
  __atomic_store_n((uint8_t *)g + 1, 0, __ATOMIC_RELEASE);
  if (in_sim()) { wake(); if (active()) point(2); }
}
API void __wrap___cxa_guard_abort(uint64_t *g) {
  __atomic_store_n((uint8_t *)g + 1, 0, __ATOMIC_RELEASE);
  if (in_sim()) wake();
}

// ------------------------------------------------------------------ clock and entropy
// The extension reads simulated time: it advances with the scheduler's steps.
#include <sys/time.h>
#include <time.h>
static int64_t sim_ns() {
  int64_t d = S.clock_div > 0 ? S.clock_div : 1;
  return (S.clock_base + (S.clock_div > 0 ? S.step / d : 0)) * 1000000000ll + (S.clock_div > 0 ? S.step % d * (1000000000ll / d) : 0);
}
API time_t __wrap_time(time_t *t) {
  if (active()) point(2);
  time_t r = sim_ns() / 1000000000;
  if (t) *t = r;
  return r;
}
API int __wrap_gettimeofday(struct timeval *tv, void *) {
  if (active()) point(2);
  if (tv) { tv->tv_sec = sim_ns() / 1000000000; tv->tv_usec = sim_ns() % 1000000000 / 1000; }
  return 0;
}
API int __wrap_clock_gettime(clockid_t, struct timespec *ts) {
  if (active()) point(2);
  if (ts) { ts->tv_sec = sim_ns() / 1000000000; ts->tv_nsec = sim_ns() % 1000000000; }
  return 0;
}
API clock_t __wrap_clock(void) { return sim_ns() / 1000; }
API int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { if (active()) point(2); return sim_ns(); }
API int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { if (active()) point(2); return sim_ns(); }
static uint64_t sim_entropy() {
  uint64_t z = (S.entropy += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  return z ^ (z >> 27);
}
API unsigned __wrap__ZNSt13random_device9_M_getvalEv(void *) { return (unsigned)sim_entropy(); }
API ssize_t __wrap_getrandom(void *b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = (uint8_t)sim_entropy(); return (ssize_t)n; }
API int __wrap_getentropy(void *b, size_t n) { __wrap_getrandom(b, n, 0); return 0; }

// ------------------------------------------------------------------ instrumentation

API void __tsan_init() {}
API void __tsan_func_entry(void *) {
  if (depth < 4096) {
    int c = classify((uintptr_t)__builtin_return_address(0));
    stack_cls[depth] = c != INHERIT ? c : depth ? stack_cls[depth - 1] : GLUE;
  }
  depth++;
}
API void __tsan_func_exit() { if (depth > 0) depth--; }
API void __tsan_vptr_update(void **a, void *) { access(a, 1); }
API void __tsan_vptr_read(void **a) { access(a, 0); }
API void __tsan_read_range(void *a, size_t) { access(a, 0); }
API void __tsan_write_range(void *a, size_t) { access(a, 1); }
#define RW(n) \
  API void __tsan_read##n(void *a) { access(a, 0); } \
  API void __tsan_write##n(void *a) { access(a, 1); } \
  API void __tsan_read_write##n(void *a) { access(a, 1); } \
  API void __tsan_unaligned_read##n(void *a) { access(a, 0); } \
  API void __tsan_unaligned_write##n(void *a) { access(a, 1); } \
  API void __tsan_unaligned_read_write##n(void *a) { access(a, 1); } \
  API void __tsan_volatile_read##n(void *a) { access(a, 0); } \
  API void __tsan_volatile_write##n(void *a) { access(a, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
API void *__tsan_memcpy(void *d, const void *s, size_t n) { access(s, 0); access(d, 1); return memcpy(d, s, n); }
API void *__tsan_memmove(void *d, const void *s, size_t n) { access(s, 0); access(d, 1); return memmove(d, s, n); }
API void *__tsan_memset(void *d, int c, size_t n) { access(d, 1); return memset(d, c, n); }

static inline void sync_point() { if (active()) { point(2); wake(); } }
#define ATOMICS(b, T) \
  API T __tsan_atomic##b##_load(const volatile T *a, int) { sync_point(); return __atomic_load_n(a, 5); } \
  API void __tsan_atomic##b##_store(volatile T *a, T v, int) { sync_point(); __atomic_store_n(a, v, 5); } \
  API T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { sync_point(); return __atomic_exchange_n(a, v, 5); } \
  API T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { sync_point(); return __atomic_fetch_add(a, v, 5); } \
  API T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { sync_point(); return __atomic_fetch_sub(a, v, 5); } \
  API T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { sync_point(); return __atomic_fetch_and(a, v, 5); } \
  API T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { sync_point(); return __atomic_fetch_or(a, v, 5); } \
  API T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { sync_point(); return __atomic_fetch_xor(a, v, 5); } \
  API T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int) { sync_point(); return __atomic_fetch_nand(a, v, 5); } \
  API int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { sync_point(); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
  API int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { sync_point(); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
  API T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T e, T v, int, int) { sync_point(); __atomic_compare_exchange_n(a, &e, v, 0, 5, 5); return e; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
API void __tsan_atomic_thread_fence(int) { sync_point(); }
API void __tsan_atomic_signal_fence(int) {}
