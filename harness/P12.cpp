// Allocators used from one thread: distinct, stable, aligned, reusable storage, all of it given back.
// RELEASE: 0.4
#include "tracked.h"
#include "bss-util/BlockAlloc.h"
#include "bss-util/GreedyAlloc.h"
#include "bss-util/GreedyBlockAlloc.h"
#include "bss-util/CacheAlloc.h"
#include "bss-util/RingAlloc.h"
#include "bss-util/BlockAllocMT.h"
#include <map>
using namespace bss;
using namespace trk;

struct Blk { uint8_t* p; size_t n; uint8_t tag; size_t cnt; };
struct Pool
{ // the live blocks and what was written to them
  std::map<uintptr_t, Blk> live; uint8_t tag = 0; size_t peak = 0, total = 0;
  static uint8_t pat(uint8_t t, size_t i) { return (uint8_t)(t * 37 + i * 11 + 5); }
  void add(void* v, size_t n, size_t align, size_t cnt = 0)
  {
    uint8_t* p = (uint8_t*)v; CHECK(p != 0, "allocation of %zu bytes failed", n); CHECK((uintptr_t)p % align == 0, "block %p is not %zu-aligned", p, align);
    auto it = live.lower_bound((uintptr_t)p); if(it != live.end()) CHECK((uintptr_t)p + n <= it->first, "block overlaps a live block after it"); if(it != live.begin()) { --it; CHECK(it->first + it->second.n <= (uintptr_t)p, "block overlaps a live block before it"); }
    uint8_t t = ++tag; for(size_t i = 0; i < n; ++i) p[i] = pat(t, i); live[(uintptr_t)p] = Blk{ p, n, t, cnt }; peak = std::max(peak, live.size()); ++total;
  }
  void verify(const Blk& b, size_t n) { for(size_t i = 0; i < n; ++i) CHECK(b.p[i] == pat(b.tag, i), "live block changed at byte %zu of %zu", i, b.n); }
  void verify() { for(auto& b : live) verify(b.second, b.second.n); }
  Blk take(pbt::Src& s) { auto it = live.begin(); std::advance(it, s.draw(live.size())); Blk b = it->second; verify(b, b.n); live.erase(it); return b; }
};
static size_t size(pbt::Src& s, size_t mx) { switch(s.draw(5)) { case 0: return 1 + s.draw(16); case 1: return 1 + s.draw(64); case 2: return 1 + s.draw(mx); case 3: { size_t k = (size_t)8 << s.draw(6); return std::min(mx, k - 1 + s.draw(3)); } default: return mx; } }
static void finish(pbt::Src& s, Pool& p, int ops, bool moved, bool cleared) { s.note("%d ops, peak %zu live", ops, p.peak); s.nontrivial(p.total >= 4 && p.peak >= 2); if(moved) s.label("moved"); if(cleared) s.label("cleared"); }

PROP(block, 2, pbt::LEAKCHECK, ">=4 allocations, >=2 live at once")
{
  size_t sz = 8 + s.draw(80), align = (size_t)1 << s.draw(6), init = s.draw(20); std::unique_ptr<BlockAlloc> a(new BlockAlloc(sz, init, align)); Pool p; int ops = 0; bool moved = false, cleared = false; s.note("size %zu align %zu init %zu", sz, align, init);
  CHECK(a->GetSize() >= sz && a->GetSize() % align == 0, "GetSize"); auto cap = [&] { size_t c = 0; for(auto n = a->GetRoot(); n; n = n->next) c += n->size / a->GetSize(); return c; };
  while(s.more(25))
  {
    switch(s.pick({ 10, 7, 1, 1, 1 }))
    {
    case 0: { size_t c = cap(), l = p.live.size(); size_t n = s.boolean() ? sz : 1 + s.draw(sz); void* v = s.boolean() ? a->Alloc(n, align) : a->Alloc(); if(cap() != c) CHECK(l == c, "a new chunk was allocated while %zu of %zu blocks were in use: freed blocks are not reused", l, c); p.add(v, sz, align); break; }
    case 1: if(!p.live.empty()) a->Dealloc(p.take(s).p); break;
    case 2: if(s.boolean()) { a->Clear(); p.live.clear(); cleared = true; } break;
    case 3: { std::unique_ptr<BlockAlloc> n; if(s.boolean()) n.reset(new BlockAlloc(std::move(*a))); else { n.reset(new BlockAlloc(24, 3, 8)); n->Alloc(); *n = std::move(*a); } a = std::move(n); moved = true; break; }
    case 4: p.verify(); break;
    }
    ++ops;
  }
  p.verify(); finish(s, p, ops, moved, cleared);
}
struct alignas(32) A32 { char c[96]; }; struct S24 { char c[24]; }; struct D16 { double d[2]; };
template<class T, class POL, bool MASSIGN> static void policy(pbt::Src& s, bool arrays, bool clear, bool reuse)
{
  std::unique_ptr<POL> a(new POL(s.draw(20))); Pool p; int ops = 0; bool moved = false, cleared = false;
  while(s.more(25))
  {
    switch(s.pick({ 10, 7, 1, 1, 1, 1 }))
    {
    case 0: { size_t n = arrays ? 1 + s.draw(s.chance(1, 4) ? 40 : 5) : 1; p.add(a->allocate(n), n * sizeof(T), alignof(T), n); break; }
    case 1: if(!p.live.empty()) { Blk b = p.take(s); a->deallocate((T*)b.p, b.cnt); } break;
    case 2: if constexpr(!std::is_same<POL, LocklessBlockPolicy<T>>::value) { if(clear && s.boolean()) { a->Clear(); p.live.clear(); cleared = true; } } break;
    case 3: { std::unique_ptr<POL> n; if constexpr(MASSIGN) { if(s.boolean()) n.reset(new POL(std::move(*a))); else { n.reset(new POL(3)); n->allocate(1); *n = std::move(*a); } } else n.reset(new POL(std::move(*a))); a = std::move(n); moved = true; break; }
    case 4: p.verify(); break;
    case 5: if(reuse && s.chance(1, 3)) { T* w[3]; for(auto& x : w) x = a->allocate(1); for(auto& x : w) a->deallocate(x, 1); long base = pbt::live_allocs(); for(int i = 0; i < 200; ++i) { for(auto& x : w) x = a->allocate(1); for(auto& x : w) a->deallocate(x, 1); } CHECK(pbt::live_allocs() <= base, "freed blocks are not reused: %ld new chunks", pbt::live_allocs() - base); s.label("churn"); } break;
    }
    ++ops;
  }
  p.verify(); finish(s, p, ops, moved, cleared);
}
PROP(policies, 2, pbt::LEAKCHECK, ">=4 allocations, >=2 live at once")
{
  switch(s.draw(8))
  {
  case 0: policy<S24, BlockPolicy<S24>, true>(s, false, true, true); break;
  case 1: policy<A32, BlockPolicy<A32>, true>(s, false, true, true); break;
  case 2: policy<S24, GreedyBlockPolicy<S24>, false>(s, true, true, false); break;
  case 3: policy<A32, GreedyBlockPolicy<A32>, false>(s, true, true, false); break;
  case 4: policy<S24, LocklessBlockPolicy<S24>, true>(s, false, false, true); break;
  case 5: policy<D16, LocklessBlockPolicy<D16>, true>(s, false, false, true); break;
  case 6: policy<D16, GreedyBlockPolicy<D16>, false>(s, true, true, false); break;
  case 7: policy<S24, RingAlloc<S24>, true>(s, true, true, false); break;
  }
}
PROP(greedy, 2, pbt::LEAKCHECK, ">=4 allocations, >=2 live at once")
{
  size_t align = (size_t)1 << s.draw(6), init = s.draw(300); std::unique_ptr<GreedyAlloc> a(new GreedyAlloc(init, align)); Pool p; int ops = 0; bool moved = false, cleared = false;
  while(s.more(25))
  {
    switch(s.pick({ 10, 4, 1, 1, 1 }))
    {
    case 0: { size_t n = size(s, 2000); p.add(a->Alloc(n), n, align); break; }
    case 1: if(!p.live.empty()) a->Dealloc(p.take(s).p); break;
    case 2: if(s.boolean()) { a->Clear(); p.live.clear(); cleared = true; } break;
    case 3: { std::unique_ptr<GreedyAlloc> n; if(s.boolean()) n.reset(new GreedyAlloc(std::move(*a))); else { n.reset(new GreedyAlloc(10, align)); n->Alloc(5); *n = std::move(*a); } a = std::move(n); moved = true; break; }
    case 4: p.verify(); break;
    }
    ++ops;
  }
  p.verify(); finish(s, p, ops, moved, cleared);
}
PROP(cache, 2, pbt::LEAKCHECK, ">=4 allocations, >=2 live at once")
{
  size_t align = (size_t)1 << s.draw(5), mx = s.boolean() ? 8192 : s.draw(200), init = s.draw(300); std::unique_ptr<CacheAlloc> a(new CacheAlloc(mx, init, align)); Pool p; int ops = 0; bool moved = false, big = false, tiny = s.chance(1, 4); // tiny blocks: freed ones still have to hold the list of free blocks
  while(s.more(25))
  {
    switch(s.pick({ 10, 7, 1, 1, 1 }))
    {
    case 0: { size_t n = tiny ? 1 + s.draw(10) : size(s, s.boolean() ? 200 : 1000); big |= n > mx; p.add(a->Alloc(n), n, align); break; }
    case 1: if(!p.live.empty()) { Blk b = p.take(s); a->Dealloc(b.p, b.n); } break;
    case 2: { std::unique_ptr<CacheAlloc> n; if(s.boolean()) n.reset(new CacheAlloc(std::move(*a))); else { n.reset(new CacheAlloc(mx, 10, align)); void* v = n->Alloc(7); n->Dealloc(v, 7); *n = std::move(*a); } a = std::move(n); moved = true; break; }
    case 3: p.verify(); break;
    case 4: { size_t n = size(s, 100); void* x = a->Alloc(n); void* y = a->Alloc(n); a->Dealloc(x, n); a->Dealloc(y, n); long base = pbt::live_allocs(); for(int i = 0; i < 300; ++i) { x = a->Alloc(n); y = a->Alloc(n); CHECK(x != y, "same block twice"); a->Dealloc(x, n); a->Dealloc(y, n); } CHECK(pbt::live_allocs() <= base, "freed blocks of %zu bytes are not reused", n); break; }
    }
    ++ops;
  }
  p.verify(); for(auto& b : p.live) a->Dealloc(b.second.p, b.second.n); finish(s, p, ops, moved, false); if(big) s.label("beyond the cached sizes");
}
template<class T, class POL> static void repolicy(pbt::Src& s, POL* a)
{ // allocate/reallocate interface: contents survive growth and shrinking
  Pool p; int ops = 0, re = 0;
  while(s.more(20))
  {
    switch(s.pick({ 6, 8, 4, 1 }))
    {
    case 0: { size_t n = 1 + s.draw(30); p.add(a->allocate(n), n * sizeof(T), std::min<size_t>(alignof(T), 16), n); break; }
    case 1: if(!p.live.empty()) { Blk b = p.take(s); size_t n = 1 + s.draw(60); T* q = a->allocate(n, (T*)b.p, b.cnt); size_t keep = std::min(n, b.cnt) * sizeof(T); for(size_t i = 0; i < keep; ++i) CHECK(((uint8_t*)q)[i] == Pool::pat(b.tag, i), "reallocation from %zu to %zu elements lost byte %zu", b.cnt, n, i); p.add(q, n * sizeof(T), std::min<size_t>(alignof(T), 16), n); ++re; } break;
    case 2: if(!p.live.empty()) { Blk b = p.take(s); a->deallocate((T*)b.p, b.cnt); } break;
    case 3: p.verify(); break;
    }
    ++ops;
  }
  p.verify(); while(!p.live.empty()) { Blk b = p.live.begin()->second; p.live.erase(p.live.begin()); a->deallocate((T*)b.p, b.cnt); } s.note("%d ops, %d reallocations", ops, re); s.nontrivial(re >= 2);
}
template<class T> struct Std : StandardAllocator<T> {}; template<class T, int A> struct Aln : StandardAllocator<T, A> {};
PROP(realloc, 1, pbt::LEAKCHECK, ">=2 reallocations")
{
  switch(s.draw(6))
  {
  case 0: { StandardAllocator<int> a; repolicy<int>(s, &a); break; }
  case 1: { StandardAllocator<D16, 16> a; repolicy<D16>(s, &a); break; }
  case 2: { StandardAllocator<A32, 32> a; repolicy<A32>(s, &a); break; }
  case 3: { GreedyPolicy<uint64_t> a(s.draw(200)); repolicy<uint64_t>(s, &a); break; }
  case 4: { CachePolicy<uint64_t> a(s.boolean() ? 100 : 8192, s.draw(200), 8); repolicy<uint64_t>(s, &a); break; }
  case 5: { CachePolicy<char> a(s.boolean() ? 20 : 8192, s.draw(200), 1); repolicy<char>(s, &a); break; }
  }
}
PROP(ring, 2, pbt::LEAKCHECK, ">=4 allocations, >=2 live at once")
{
  std::unique_ptr<RingAllocVoid> a(new RingAllocVoid(s.draw(300))); Pool p; int ops = 0; bool moved = false, cleared = false;
  while(s.more(25))
  {
    switch(s.pick({ 10, 8, 1, 1, 1, 1 }))
    {
    case 0: { size_t n = size(s, s.chance(1, 8) ? 2000 : 200); p.add(a->Alloc(n), n, 1); break; }
    case 1: if(!p.live.empty()) a->Dealloc(p.take(s).p); break;
    case 2: if(s.boolean()) { a->Clear(); p.live.clear(); cleared = true; } break;
    case 3: { std::unique_ptr<RingAllocVoid> n; if(s.boolean() || !p.live.empty()) n.reset(new RingAllocVoid(std::move(*a))); else { n.reset(new RingAllocVoid(10)); void* v = n->Alloc(5); (void)v; *n = std::move(*a); } a = std::move(n); moved = true; break; }
    case 4: p.verify(); break;
    case 5: { size_t n = 1 + s.draw(50); // FIFO churn must settle into recycled buckets
      std::vector<void*> q; for(int i = 0; i < 60; ++i) { q.push_back(a->Alloc(n)); if(q.size() > 3) { a->Dealloc(q[0]); q.erase(q.begin()); } } long base = pbt::live_allocs(); for(int i = 0; i < 2000; ++i) { q.push_back(a->Alloc(n)); a->Dealloc(q[0]); q.erase(q.begin()); } CHECK(pbt::live_allocs() <= base + 16, "FIFO churn keeps allocating: %ld new buckets", pbt::live_allocs() - base); for(auto v : q) a->Dealloc(v); break; }
    }
    ++ops;
  }
  p.verify(); finish(s, p, ops, moved, cleared);
}
