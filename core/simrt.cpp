// Simulator runtime, loaded before everything else (LD_PRELOAD): owns the C++
// allocator, the clock and the entropy sources seen by the process under
// simulation.  Outside a simulated call every function is a plain pass-through.
#include "simrt.h"
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <new>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern "C" {
SimCtl sim_ctl;

static inline uint64_t mix(uint64_t* s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

// 1 = this operation must fail
int sim_fail_point(int kind) {
  if (!sim_ctl.in_op || !(sim_ctl.kinds & (1 << kind))) return 0;
  int64_t n = ++sim_ctl.points;
  if (sim_ctl.fail_at > 0 && n >= sim_ctl.fail_at && n < sim_ctl.fail_at + sim_ctl.fail_len) {
    ++sim_ctl.fired;
    ++sim_ctl.kind_fired[kind];
    return 1;
  }
  return 0;
}

void sim_fill(void* p, size_t n) {
  if (!sim_ctl.in_op) return;
  switch (sim_ctl.fill_mode) {
    case 1: memset(p, 0, n); break;
    case 2: memset(p, 0xff, n); break;
    case 3: {
      unsigned char* c = static_cast<unsigned char*>(p);
      size_t i = 0;
      for (; i + 8 <= n; i += 8) { uint64_t v = mix(&sim_ctl.fill_state); memcpy(c + i, &v, 8); }
      if (i < n) { uint64_t v = mix(&sim_ctl.fill_state); memcpy(c + i, &v, n - i); }
      break;
    }
    case 4: {
      unsigned char* c = static_cast<unsigned char*>(p);
      double d = 1e150;
      size_t i = 0;
      for (; i + 8 <= n; i += 8) memcpy(c + i, &d, 8);
      memset(c + i, 0x7f, n - i);
      break;
    }
    default: break;
  }
}
}

// The C++ heap: one region at a fixed address.  A freed block is what the next request of
// its size gets, so address reuse is the same in every execution of a run.  Blocks carry a
// trailer that must be intact when they are freed.
#include <sys/mman.h>
namespace {
const uintptr_t BASE = 0x610000000000ull;
const size_t SPAN = 48ull << 30, LIMIT = 2ull << 30;
const uint64_t LIVE = 0x6c69766562313663ull, DEAD = 0x64656164626c6f63ull, TAIL = 0x5a17c0de5a17c0deull;
struct Block { uint64_t state; uint32_t cls, pad; uint64_t n; Block* next; };   // 32 bytes, data follow
Block* freed[512];
char *cur_, *end_;
volatile int heap_lock_;

unsigned size_class(size_t n, size_t* room) {
  if (n <= 1024) { unsigned c = (unsigned)((n + 15) / 16); *room = c * 16; return c; }
  unsigned lg = 63 - __builtin_clzll(n - 1);          // n in (2^lg, 2^(lg+1)]
  size_t q = (size_t)1 << (lg - 2);
  unsigned k = (unsigned)((n - ((size_t)1 << lg) + q - 1) / q);   // 1..4
  *room = ((size_t)1 << lg) + k * q;
  return 65 + (lg - 10) * 4 + k - 1;
}
void heap_damage(const char* what) {
  ssize_t r = write(2, what, strlen(what));
  (void)r;
  abort();
}
void* heap_get(size_t n) {
  if (n > LIMIT) return 0;
  size_t room;
  unsigned c = size_class(n + 8, &room);
  while (__sync_lock_test_and_set(&heap_lock_, 1)) {}
  if (!cur_) {
    void* p = mmap((void*)BASE, SPAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) heap_damage("simulated heap: no address space\n");
    cur_ = (char*)p; end_ = cur_ + SPAN;
  }
  Block* b = freed[c];
  if (b) freed[c] = b->next;
  else if (cur_ + sizeof(Block) + room <= end_) {
    b = (Block*)cur_;
    b->cls = c;
    cur_ += sizeof(Block) + room;
  }
  __sync_lock_release(&heap_lock_);
  if (!b) return 0;
  b->state = LIVE; b->n = n; b->next = 0;
  memcpy((char*)(b + 1) + n, &TAIL, 8);
  return b + 1;
}
inline bool ours(void* p) { return (uintptr_t)p - BASE < SPAN; }
}

static void* sim_new(size_t n, size_t align) {
  if (sim_fail_point(0)) return 0;
  void* p = 0;
  if (align > 16) { if (posix_memalign(&p, align, n ? n : 1)) p = 0; }
  else p = heap_get(n ? n : 1);
  if (p) {
    ++sim_ctl.new_calls; ++sim_ctl.new_blocks;
    sim_ctl.new_bytes += ours(p) ? (int64_t)((Block*)p - 1)->n : (int64_t)malloc_usable_size(p);
    sim_fill(p, n);
  }
  return p;
}
static void sim_delete(void* p) {
  if (!p) return;
  --sim_ctl.new_blocks;
  if (!ours(p)) { sim_ctl.new_bytes -= malloc_usable_size(p); free(p); return; }
  Block* b = (Block*)p - 1;
  if (b->state != LIVE) heap_damage("simulated heap: freed twice, or never allocated\n");
  if (memcmp((char*)p + b->n, &TAIL, 8)) heap_damage("simulated heap: written past the end of a block\n");
  sim_ctl.new_bytes -= b->n;
  sim_fill(p, b->n);                  // freed memory does not keep its contents
  b->state = DEAD;
  while (__sync_lock_test_and_set(&heap_lock_, 1)) {}
  b->next = freed[b->cls];
  freed[b->cls] = b;
  __sync_lock_release(&heap_lock_);
}

void* operator new(size_t n) { void* p = sim_new(n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = sim_new(n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_new(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_new(n, 0); }
void* operator new(size_t n, std::align_val_t a) { void* p = sim_new(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = sim_new(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim_new(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim_new(n, (size_t)a); }
void operator delete(void* p) noexcept { sim_delete(p); }
void operator delete[](void* p) noexcept { sim_delete(p); }
void operator delete(void* p, size_t) noexcept { sim_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim_delete(p); }

// ------------------------------------------------------------------ clock, entropy
template <class F> static F real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
static bool clock_active() { return sim_ctl.in_op && sim_ctl.clock_on; }
static void clock_read(int64_t* s, int64_t* ns) {
  ++sim_ctl.clock_reads;
  *s = sim_ctl.clock_sec; *ns = sim_ctl.clock_nsec;
  sim_ctl.clock_nsec += sim_ctl.clock_step_ns;
  while (sim_ctl.clock_nsec >= 1000000000) { sim_ctl.clock_nsec -= 1000000000; ++sim_ctl.clock_sec; }
}

extern "C" {
time_t time(time_t* t) {
  if (!clock_active()) { static time_t (*f)(time_t*) = real<time_t (*)(time_t*)>("time"); return f(t); }
  int64_t s, ns; clock_read(&s, &ns);
  if (t) *t = s;
  return s;
}
int gettimeofday(struct timeval* tv, void* tz) {
  if (!clock_active()) { static int (*f)(struct timeval*, void*) = real<int (*)(struct timeval*, void*)>("gettimeofday"); return f(tv, tz); }
  int64_t s, ns; clock_read(&s, &ns);
  tv->tv_sec = s; tv->tv_usec = ns / 1000;
  return 0;
}
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!clock_active()) { static int (*f)(clockid_t, struct timespec*) = real<int (*)(clockid_t, struct timespec*)>("clock_gettime"); return f(c, ts); }
  int64_t s, ns; clock_read(&s, &ns);
  ts->tv_sec = s; ts->tv_nsec = ns;
  return 0;
}
clock_t clock(void) {
  if (!clock_active()) { static clock_t (*f)(void) = real<clock_t (*)(void)>("clock"); return f(); }
  int64_t s, ns; clock_read(&s, &ns);
  return (clock_t)(s * 1000000 + ns / 1000);
}
pid_t getpid(void) {
  if (!sim_ctl.in_op) { static pid_t (*f)(void) = real<pid_t (*)(void)>("getpid"); return f(); }
  return (pid_t)sim_ctl.pid;
}
ssize_t getrandom(void* b, size_t n, unsigned fl) {
  if (!sim_ctl.in_op) { static ssize_t (*f)(void*, size_t, unsigned) = real<ssize_t (*)(void*, size_t, unsigned)>("getrandom"); return f(b, n, fl); }
  ++sim_ctl.entropy_reads;
  for (size_t i = 0; i < n; ++i) static_cast<unsigned char*>(b)[i] = (unsigned char)mix(&sim_ctl.entropy_state);
  return n;
}
int getentropy(void* b, size_t n) {
  if (!sim_ctl.in_op) { static int (*f)(void*, size_t) = real<int (*)(void*, size_t)>("getentropy"); return f(b, n); }
  return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1;
}
}

// std::random_device is the other door to entropy
extern "C" unsigned sim_random_device(void*) __asm__("_ZNSt13random_device9_M_getvalEv");
extern "C" unsigned sim_random_device(void* self) {
  if (!sim_ctl.in_op) {
    static unsigned (*f)(void*) = real<unsigned (*)(void*)>("_ZNSt13random_device9_M_getvalEv");
    return f(self);
  }
  ++sim_ctl.entropy_reads;
  return (unsigned)mix(&sim_ctl.entropy_state);
}
