// MODE: sched
// RELEASE: 0.4
// ASSUME: interleavings are sequentially consistent (reorderings by the CPU are not modelled); threads are preempted only at memory accesses, atomic operations and function entries of the code under test
// Multithreaded allocators under generated schedules: no block is handed out twice, live blocks are never disturbed, everything is given back.
#include "vsched.h"
#include "tracked.h"
#include "bss-util/RingAlloc.h"
#include "bss-util/BlockAllocMT.h"
#include "bss-util/GreedyAlloc.h"
#include "bss-util/CacheAlloc.h"
#include <map>
#include <memory>
using namespace bss;

struct Blk { uint8_t* p; size_t n; uint8_t tag; int by; };
struct Reg
{ // live blocks and what was written into them; every method runs without preemption
  std::map<uintptr_t, Blk> live; uint8_t tag = 0; size_t total = 0, peak = 0, cross = 0;
  static uint8_t pat(uint8_t t, size_t i) { return (uint8_t)(t * 37 + i * 11 + 5); }
  void add(void* v, size_t n, size_t align)
  {
    sched::quiet z; uint8_t* p = (uint8_t*)v; CHECK(p != 0, "allocation of %zu bytes failed", n); CHECK((uintptr_t)p % align == 0, "block is not %zu-aligned", align);
    auto it = live.lower_bound((uintptr_t)p); if(it != live.end()) CHECK((uintptr_t)p + n <= it->first, "thread %d was given a block of %zu bytes that overlaps a live block", sched::self(), n); if(it != live.begin()) { --it; CHECK(it->first + it->second.n <= (uintptr_t)p, "thread %d was given a block of %zu bytes that overlaps a live block", sched::self(), n); }
    uint8_t t = ++tag; for(size_t i = 0; i < n; ++i) p[i] = pat(t, i); live[(uintptr_t)p] = Blk{ p, n, t, sched::self() }; peak = std::max(peak, live.size()); ++total;
  }
  bool take(size_t k, Blk& b) { sched::quiet z; if(live.empty()) return false; auto it = live.begin(); std::advance(it, k % live.size()); b = it->second; verify(b); live.erase(it); cross += b.by != sched::self(); return true; }
  static void verify(const Blk& b) { for(size_t i = 0; i < b.n; ++i) CHECK(b.p[i] == pat(b.tag, i), "a live block of %zu bytes changed at byte %zu", b.n, i); }
  void verify() { sched::quiet z; for(auto& b : live) verify(b.second); }
};
struct Op { int kind; size_t n; };
template<class A, class D> static void drive(pbt::Src& s, const std::vector<size_t>& sizes, bool frees, size_t align, A alloc, D dealloc)
{
  std::unique_ptr<Reg> r; { sched::quiet z; r.reset(new Reg()); }
  int nt = 2 + (int)s.draw(3); std::vector<std::vector<Op>> ops(nt); std::vector<std::function<void()>> th; { sched::quiet z; for(auto& o : ops) { int k = (int)s.draw(8); for(int i = 0; i < k; ++i) o.push_back(Op{ frees && s.chance(2, 5) ? 1 : 0, 0 }), o.back().n = o.back().kind ? s.draw(8) : sizes[s.draw(sizes.size())]; } }
  for(int i = 0; i < nt; ++i) th.push_back([&, i] { for(auto& o : ops[i]) { Blk b; if(o.kind == 0) { size_t n; { sched::quiet z; n = o.n; } void* p = alloc(n); r->add(p, n, align); } else if(r->take(o.n, b)) dealloc(b.p, b.n); } });
  sched::run(s, th); r->verify();
  // the allocator still works afterwards, and everything can be given back
  for(int k = (int)s.draw(4); k > 0; --k) { size_t n = sizes[s.draw(sizes.size())]; r->add(alloc(n), n, align); } r->verify();
  if(s.boolean()) { Blk b; while(r->take(s.draw(4), b)) dealloc(b.p, b.n); for(int k = (int)s.draw(3); k > 0; --k) { size_t n = sizes[s.draw(sizes.size())]; r->add(alloc(n), n, align); } r->verify(); }
  s.note("%d threads, %zu allocations, peak %zu live, %zu cross-thread frees, %u switches", nt, r->total, r->peak, r->cross, sched::switches()); s.nontrivial(r->total >= 2 && sched::switches() > (uint32_t)nt); if(r->cross) s.label("cross-thread free"); if(sched::switches() > 20) s.label("more than 20 context switches");
  { sched::quiet z; r.reset(); }
}
#define RULE ">=2 allocations and more context switches than threads"
PROP(ring, 3, 0, RULE)
{
  sched::heap h; { std::vector<size_t> sz; for(int i = 1 + (int)s.draw(3); i > 0; --i) sz.push_back(1 + s.draw(s.boolean() ? 16 : 200));
    if(s.boolean()) { std::unique_ptr<RingAllocVoid> a(new RingAllocVoid(s.draw(s.boolean() ? 64 : 512))); drive(s, sz, true, 1, [&](size_t n) { return a->Alloc(n); }, [&](void* p, size_t) { a->Dealloc(p); }); if(s.chance(1, 4)) { a->Clear(); void* p = a->Alloc(8); memset(p, 1, 8); a->Dealloc(p); } }
    else { std::unique_ptr<RingAlloc<int64_t>> a(new RingAlloc<int64_t>(s.draw(300))); for(auto& x : sz) x = (1 + x / 8) * 8; drive(s, sz, true, 8, [&](size_t n) { return a->allocate(n / 8); }, [&](void* p, size_t) { a->deallocate((int64_t*)p); }); } }
  CHECK(h.live() == 0, "%ld heap blocks leaked", h.live());
}
struct S24 { void* a[3]; }; struct alignas(16) S32 { char c[32]; };
template<class T> static void blk(pbt::Src& s) { std::unique_ptr<LocklessBlockPolicy<T>> a(new LocklessBlockPolicy<T>(s.draw(5))); drive(s, { sizeof(T) }, true, alignof(T), [&](size_t) { return a->allocate(1); }, [&](void* p, size_t) { a->deallocate((T*)p, 1); }); }
PROP(block, 2, 0, RULE) { sched::heap h; switch(s.draw(3)) { case 0: blk<int64_t>(s); break; case 1: blk<S24>(s); break; case 2: blk<S32>(s); break; } CHECK(h.live() == 0, "%ld heap blocks leaked", h.live()); }
PROP(greedy, 2, 0, RULE)
{
  sched::heap h; { std::vector<size_t> sz; size_t al = (size_t)1 << s.draw(6); for(int i = 1 + (int)s.draw(3); i > 0; --i) sz.push_back(1 + s.draw(s.boolean() ? 16 : 200)); std::unique_ptr<GreedyAlloc> a(new GreedyAlloc(s.draw(128), al));
    drive(s, sz, false, al, [&](size_t n) { return a->Alloc(n); }, [&](void* p, size_t) { a->Dealloc(p); }); if(s.chance(1, 3)) { a->Clear(); void* p = a->Alloc(100), *q = a->Alloc(28); CHECK((char*)p + 100 <= (char*)q || (char*)q + 28 <= (char*)p, "blocks overlap after Clear"); memset(p, 1, 100); memset(q, 1, 28); } }
  CHECK(h.live() == 0, "%ld heap blocks leaked", h.live());
}
PROP(cache, 3, 0, RULE)
{
  sched::heap h; { std::vector<size_t> sz; for(int i = 1 + (int)s.draw(3); i > 0; --i) sz.push_back(8 * (1 + s.draw(s.boolean() ? 3 : 20)));
    if(s.boolean()) { std::unique_ptr<CacheAlloc> a(new CacheAlloc(s.boolean() ? 8192 : 16 + s.draw(64), s.draw(256), 8)); drive(s, sz, true, 8, [&](size_t n) { return a->Alloc(n); }, [&](void* p, size_t n) { a->Dealloc(p, n); }); }
    else { std::unique_ptr<CachePolicy<int64_t>> a(new CachePolicy<int64_t>(8192, s.draw(256), 8)); drive(s, sz, true, 8, [&](size_t n) { return a->allocate(n / 8); }, [&](void* p, size_t n) { a->deallocate((int64_t*)p, n / 8); }); } }
}
