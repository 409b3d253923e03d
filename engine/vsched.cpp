#include "vsched.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <map>
#include <sys/mman.h>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <malloc.h>
#include <time.h>

// ---------------------------------------------------------------- fibers
extern "C" void sched_switch(void** save, void* load);
asm(R"(
.text
.globl sched_switch
sched_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
extern "C" void* __libc_malloc(size_t); extern "C" void __libc_free(void*); extern "C" void* __libc_calloc(size_t, size_t); extern "C" void* __libc_realloc(void*, size_t); extern "C" void* __libc_memalign(size_t, size_t);
namespace sched {
  static const size_t STACK = 256 << 10; static const int MAXT = 24; static const long QUANTUM = 1500; static const uint64_t LIMIT = 4000000;
  enum State { FREE, READY, BLOCKED, DONE };
  struct Fiber { void* sp; char* stack; State st; std::function<void()> fn; void* (*start)(void*); void* arg; void* ret; const void* waiton; int waitkind; };
  static Fiber F[MAXT]; static int nf; static int cur = -1; static bool active; static void* mainsp; static int quietn; static int heapn;
  static long gap; static uint64_t steps; static uint32_t nswitch, decisions, forced; static pbt::Src* src; static bool inside;
  static char* stk_lo; static char* stk_hi;

  static void go(int to) { if(to == cur) return; int from = cur; cur = to; ++nswitch; stk_lo = F[to].stack; stk_hi = stk_lo + STACK; sched_switch(&F[from].sp, F[to].sp); }
  static int ready(int* out, bool others) { int n = 0; for(int k = 1; k <= nf; ++k) { int i = (cur + k) % nf; if(F[i].st == READY && (!others || i != cur)) out[n++] = i; } return n; }
  // picks the next thread and how long it runs; called at a preemption, a block or a finish
  static void decide(bool mustleave)
  {
    int r[MAXT]; int n = ready(r, true);
    if(n == 0)
    {
      if(cur >= 0 && F[cur].st == READY) { gap = QUANTUM; return; }
      bool alldone = true; for(int i = 0; i < nf; ++i) alldone &= F[i].st == DONE;
      if(alldone) { int from = cur; cur = -1; active = false; sched_switch(&F[from].sp, mainsp); abort(); }
      pbt::fail("schedule", 0, "deadlock: every remaining thread is blocked");
    }
    int to; inside = true;
    if(decisions < 250) { ++decisions; to = r[n > 1 ? src->draw(n) : 0]; uint64_t k = src->draw(10); gap = k == 0 ? QUANTUM : 1 + (long)src->draw((uint64_t)1 << k); }
    else { to = r[0]; gap = QUANTUM; }
    inside = false; go(to);
  }
  static inline void point()
  {
    if(!active || quietn || inside) return;
    ++steps; if(--gap > 0) return;
    if(steps > LIMIT) pbt::fail("schedule", 0, "no progress: the threads did not finish within %llu steps of a fair schedule", (unsigned long long)LIMIT);
    decide(true);
  }
  static void entry()
  {
    Fiber& f = F[cur]; if(f.start) f.ret = f.start(f.arg); else f.fn();
    F[cur].st = DONE; int me = cur; for(int i = 0; i < nf; ++i) if(F[i].st == BLOCKED && F[i].waitkind == 1 && F[i].waiton == (void*)(intptr_t)(me + 1)) F[i].st = READY;
    decide(true); abort();
  }
  static int spawn()
  {
    if(nf == MAXT) pbt::fail("schedule", 0, "too many threads"); Fiber& f = F[nf];
    if(!f.stack) f.stack = (char*)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    void** sp = (void**)(f.stack + STACK - 64); *--sp = 0; *--sp = (void*)entry; for(int i = 0; i < 6; ++i) *--sp = 0; f.sp = sp; f.st = READY; f.start = 0; f.ret = 0; return nf++;
  }
  void run(pbt::Src& s, const std::vector<std::function<void()>>& t)
  {
    nf = 0; cur = -1; steps = 0; nswitch = 0; decisions = 0; src = &s; quietn = 0; inside = false; for(auto& f : t) { int i = spawn(); F[i].fn = f; }
    if(!nf) return; cur = (int)s.draw(nf); gap = 1; { uint64_t k = s.draw(10); gap = k == 0 ? QUANTUM : 1 + (long)s.draw((uint64_t)1 << k); }
    stk_lo = F[cur].stack; stk_hi = stk_lo + STACK; active = true; sched_switch(&mainsp, F[cur].sp); active = false; for(int i = 0; i < nf; ++i) F[i].fn = nullptr; nf = 0;
  }
  void yield() { if(active && !quietn) { ++steps; if(steps > LIMIT) pbt::fail("schedule", 0, "no progress: the threads did not finish within %llu steps of a fair schedule", (unsigned long long)LIMIT); decide(true); } }
  uint64_t now() { return ++steps; } int self() { return cur; } uint32_t switches() { return nswitch; }
  quiet::quiet() { ++quietn; } quiet::~quiet() { --quietn; }
  static void block(const void* on, int kind) { F[cur].st = BLOCKED; F[cur].waiton = on; F[cur].waitkind = kind; decide(true); }

  // ---------------------------------------------------------------- checked heap
  static const size_t ARENA = 32 << 20; static char* arena; static uint8_t* shadow; static size_t apos, amax; static long alive; // shadow: 0 unallocated, 1..8 valid bytes of the granule, 0xFD freed
  struct Hdr { size_t size; size_t magic; };
  static void* aalloc(size_t n, size_t al)
  {
    if(al < 16) al = 16; size_t p = apos + sizeof(Hdr) + 16; p = (p + al - 1) & ~(al - 1); if(p + n + 32 > ARENA) pbt::fail("heap", 0, "the case allocated more than %zu bytes", ARENA);
    Hdr* h = (Hdr*)(arena + p) - 1; h->size = n; h->magic = 0xA110C8ED; size_t g = p / 8, full = n / 8; memset(shadow + g, 8, full); if(n % 8) shadow[g + full] = (uint8_t)(n % 8);
    memset(arena + p, 0xBE, n); apos = (p + n + 16 + 15) & ~(size_t)15; if(apos > amax) amax = apos; ++alive; return arena + p;
  }
  static bool ours(const void* p) { return arena && (const char*)p >= arena && (const char*)p < arena + ARENA; }
  static void afree(void* p)
  {
    Hdr* h = (Hdr*)p - 1; if(h->magic == 0xF4EED) pbt::fail("heap", 0, "double free"); if(h->magic != 0xA110C8ED) pbt::fail("heap", 0, "free of a pointer that was not allocated"); h->magic = 0xF4EED; size_t g = ((char*)p - arena) / 8; memset(shadow + g, 0xFD, (h->size + 7) / 8); memset(p, 0xDD, h->size); --alive;
  }
  static inline void access(const void* p, size_t n, const char* what)
  {
    if(!ours(p)) return; size_t o = (const char*)p - arena;
    for(size_t i = o; i < o + n;) { uint8_t v = shadow[i / 8]; size_t in = i % 8; if(v == 0xFD) pbt::fail("heap", 0, "use after free: %s of %zu bytes by thread %d", what, n, cur); size_t take = 8 - in < o + n - i ? 8 - in : o + n - i; if(in + take > v) pbt::fail("heap", 0, "out of bounds heap %s of %zu bytes by thread %d", what, n, cur); i += take; }
  }
  heap::heap()
  {
    if(!arena) { arena = (char*)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); shadow = (uint8_t*)mmap(0, ARENA / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    memset(shadow, 0, amax / 8 + 8); apos = 0; alive = 0; ++heapn;
  }
  heap::~heap() { --heapn; }
  long heap::live() const { return alive; }
  static inline bool use() { return heapn && !quietn && !inside; }
  template<class FN> static FN real(const char* n) { return (FN)dlsym(RTLD_NEXT, n); }
  struct Mx { int owner; int depth; }; static std::map<const void*, Mx>* mx;
  static Mx& mutexof(const void* m) { inside = true; if(!mx) mx = new std::map<const void*, Mx>(); Mx& r = mx->emplace(m, Mx{ -1, 0 }).first->second; inside = false; return r; }
}
using namespace sched;
extern "C" {
  void* malloc(size_t n) { return use() ? aalloc(n, 16) : __libc_malloc(n); }
  void free(void* p) { if(!p) return; if(ours(p)) afree(p); else __libc_free(p); }
  void* calloc(size_t a, size_t b) { if(!use()) return __libc_calloc(a, b); void* p = aalloc(a * b, 16); memset(p, 0, a * b); return p; }
  void* aligned_alloc(size_t al, size_t n) { return use() ? aalloc(n, al) : __libc_memalign(al < 16 ? 16 : al, n); }
  void* memalign(size_t al, size_t n) { return aligned_alloc(al, n); }
  int posix_memalign(void** o, size_t al, size_t n) { *o = aligned_alloc(al, n); return 0; }
  size_t malloc_usable_size(void* p) { if(!p) return 0; if(ours(p)) return ((Hdr*)p - 1)->size; static auto f = real<size_t(*)(void*)>("malloc_usable_size"); return f(p); }
  void* realloc(void* p, size_t n) { if(!p) return malloc(n); if(!ours(p)) { if(!use()) return __libc_realloc(p, n); size_t o = malloc_usable_size(p); void* q = malloc(n); memcpy(q, p, o < n ? o : n); free(p); return q; } size_t o = ((Hdr*)p - 1)->size; void* q = malloc(n); memcpy(q, p, o < n ? o : n); free(p); return q; }

  // -------------------------------------------------------------- threads and blocking primitives
  int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) { if(!active) { static auto f = real<int(*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create"); return f(t, a, fn, arg); } int i = spawn(); F[i].start = fn; F[i].arg = arg; *t = (pthread_t)(i + 1); point(); return 0; }
  int pthread_join(pthread_t t, void** r) { if(!active) { static auto f = real<int(*)(pthread_t, void**)>("pthread_join"); return f(t, r); } int i = (int)t - 1; point(); while(F[i].st != DONE) block((void*)(intptr_t)t, 1); if(r) *r = F[i].ret; return 0; }
  int pthread_tryjoin_np(pthread_t t, void** r) { if(!active) { static auto f = real<int(*)(pthread_t, void**)>("pthread_tryjoin_np"); return f(t, r); } point(); int i = (int)t - 1; if(F[i].st != DONE) return EBUSY; if(r) *r = F[i].ret; return 0; }
  int pthread_timedjoin_np(pthread_t t, void** r, const struct timespec* ts) { if(!active) { static auto f = real<int(*)(pthread_t, void**, const struct timespec*)>("pthread_timedjoin_np"); return f(t, r, ts); } if(ts && (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)) return EINVAL; return pthread_join(t, r); }
  int pthread_detach(pthread_t t) { if(!active) { static auto f = real<int(*)(pthread_t)>("pthread_detach"); return f(t); } return 0; }
  int clock_gettime(clockid_t c, struct timespec* ts) noexcept { if(!active || inside) { static auto f = real<int(*)(clockid_t, struct timespec*)>("clock_gettime"); return f(c, ts); } inside = true; ts->tv_sec = 1000 + steps / 1000; ts->tv_nsec = (long)src->draw(1000) * 1000000 + 999; inside = false; return 0; }
  int sem_init(sem_t* s, int sh, unsigned v) noexcept { memset((void*)s, 0, sizeof(*s)); *(volatile unsigned*)s = v; return 0; }
  int sem_destroy(sem_t*) noexcept { return 0; }
  int sem_post(sem_t* s) noexcept { access(s, 4, "sem_post"); point(); ++*(volatile unsigned*)s; for(int i = 0; i < nf; ++i) if(F[i].st == BLOCKED && F[i].waitkind == 2 && F[i].waiton == s) F[i].st = READY; return 0; }
  int sem_wait(sem_t* s) { access(s, 4, "sem_wait"); point(); if(!active) abort(); while(*(volatile unsigned*)s == 0) { block(s, 2); access(s, 4, "sem_wait"); } --*(volatile unsigned*)s; return 0; }
  int sem_trywait(sem_t* s) noexcept { access(s, 4, "sem_trywait"); point(); if(*(volatile unsigned*)s == 0) { errno = EAGAIN; return -1; } --*(volatile unsigned*)s; return 0; }
  int sched_yield() noexcept { sched::yield(); return 0; }
  int nanosleep(const struct timespec* a, struct timespec* b) { if(!active) return clock_nanosleep(CLOCK_REALTIME, 0, a, b); sched::yield(); return 0; }
  int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if(!active || quietn || inside) return 0; point(); while(mutexof(m).owner >= 0 && mutexof(m).owner != cur) block(m, 3); mutexof(m).owner = cur; return 0; }
  int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if(!active || quietn || inside) return 0; point(); if(mutexof(m).owner >= 0) return EBUSY; mutexof(m).owner = cur; return 0; }
  int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if(!active || quietn || inside) return 0; mutexof(m).owner = -1; for(int i = 0; i < nf; ++i) if(F[i].st == BLOCKED && F[i].waitkind == 3 && F[i].waiton == m) F[i].st = READY; point(); return 0; }

  // -------------------------------------------------------------- instrumentation callbacks
  static inline bool local(const void* p) { return (const char*)p >= stk_lo && (const char*)p < stk_hi; }
#define RD(N) void __tsan_read##N(void* p) { if(!local(p)) { point(); access(p, N, "read"); } } void __tsan_unaligned_read##N(void* p) { __tsan_read##N(p); }
#define WR(N) void __tsan_write##N(void* p) { if(!local(p)) { point(); access(p, N, "write"); } } void __tsan_unaligned_write##N(void* p) { __tsan_write##N(p); }
  RD(1) RD(2) RD(4) RD(8) RD(16) WR(1) WR(2) WR(4) WR(8) WR(16)
  void __tsan_read_range(void* p, size_t n) { if(!local(p)) { point(); access(p, n, "read"); } }
  void __tsan_write_range(void* p, size_t n) { if(!local(p)) { point(); access(p, n, "write"); } }
  void __tsan_vptr_update(void** p, void*) { __tsan_write8(p); }
  void __tsan_vptr_read(void** p) { __tsan_read8(p); }
  void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
  void __cyg_profile_func_enter(void*, void*) { point(); } void __cyg_profile_func_exit(void*, void*) {}
  void __tsan_atomic_thread_fence(int) { point(); } void __tsan_atomic_signal_fence(int) {}
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T* p, int) { point(); access((void*)p, sizeof(T), "atomic load"); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##B##_store(volatile T* p, T v, int) { point(); access((void*)p, sizeof(T), "atomic store"); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { point(); access((void*)p, sizeof(T), "atomic exchange"); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { point(); access((void*)p, sizeof(T), "atomic add"); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { point(); access((void*)p, sizeof(T), "atomic sub"); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { point(); access((void*)p, sizeof(T), "atomic and"); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { point(); access((void*)p, sizeof(T), "atomic or"); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { point(); access((void*)p, sizeof(T), "atomic xor"); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int) { point(); access((void*)p, sizeof(T), "atomic nand"); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { point(); access((void*)p, sizeof(T), "compare-exchange"); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { point(); access((void*)p, sizeof(T), "compare-exchange"); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int, int) { point(); access((void*)p, sizeof(T), "compare-exchange"); __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
  AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
  typedef unsigned __int128 u128;
  u128 __tsan_atomic128_load(const volatile u128* p, int) { point(); access((void*)p, 16, "atomic load"); return __sync_val_compare_and_swap((volatile u128*)p, (u128)0, (u128)0); }
  void __tsan_atomic128_store(volatile u128* p, u128 v, int) { point(); access((void*)p, 16, "atomic store"); *p = v; }
  u128 __tsan_atomic128_exchange(volatile u128* p, u128 v, int) { point(); access((void*)p, 16, "atomic exchange"); u128 o = *p; *p = v; return o; }
  bool __tsan_atomic128_compare_exchange_strong(volatile u128* p, u128* c, u128 v, int, int) { point(); access((void*)p, 16, "compare-exchange"); u128 o = *p; if(o == *c) { *p = v; return true; } *c = o; return false; }
  bool __tsan_atomic128_compare_exchange_weak(volatile u128* p, u128* c, u128 v, int a, int b) { return __tsan_atomic128_compare_exchange_strong(p, c, v, a, b); }
  u128 __tsan_atomic128_compare_exchange_val(volatile u128* p, u128 c, u128 v, int, int) { point(); access((void*)p, 16, "compare-exchange"); u128 o = *p; if(o == c) *p = v; return o; }
}
