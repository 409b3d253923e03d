// MODE: sched
// ASSUME: interleavings are sequentially consistent (reorderings by the CPU are not modelled); threads are preempted only at memory accesses, atomic operations and function entries of the code under test
// Concurrent queues under generated schedules.
#include "vsched.h"
#include "tracked.h"
#include "bss-util/LocklessQueue.h"
#include <map>
#include <set>
#include <memory>
using namespace bss;
using namespace trk;

struct Ev { int kind; int v; uint64_t b, e; }; // 0 push, 1 pop, 2 pop found nothing
// conditions every linearizable FIFO queue history with distinct values satisfies
static void fifo(const std::vector<Ev>& h, bool drained)
{
  std::map<int, Ev> push, pop; for(auto& e : h) { if(e.kind == 0) push[e.v] = e; if(e.kind == 1) { CHECK(!pop.count(e.v), "value %d was delivered twice", e.v); pop[e.v] = e; } }
  for(auto& p : pop) { CHECK(push.count(p.first), "value %d was delivered but never pushed", p.first); CHECK(push[p.first].b < p.second.e, "value %d was delivered before it was pushed", p.first); }
  if(drained) for(auto& p : push) CHECK(pop.count(p.first), "value %d was lost", p.first);
  for(auto& a : push) for(auto& b : push) if(a.second.e < b.second.b && pop.count(b.first)) { CHECK(pop.count(a.first), "value %d overtook the earlier value %d", b.first, a.first); CHECK(!(pop[b.first].e < pop[a.first].b), "value %d, pushed after %d, was delivered before it", b.first, a.first); }
  for(auto& e : h) if(e.kind == 2) for(auto& a : push) if(a.second.e < e.b) CHECK(pop.count(a.first) && pop[a.first].b < e.e, "a pop found the queue empty although value %d was in it throughout", a.first);
}
template<class T> struct Val { static T mk(int v) { return T(v); } static int get(const T& t) { return val(t); } };
template<class Q, class T> static void drive(pbt::Src& s, Q& q, int np, int nc, bool len)
{
  std::vector<std::vector<Ev>> log(np + nc + 1); std::vector<std::function<void()>> th; int total = 0; std::vector<int> cnt; for(int i = 0; i < np; ++i) { cnt.push_back((int)s.draw(7)); total += cnt.back(); } std::vector<int> pops; for(int i = 0; i < nc; ++i) pops.push_back((int)s.draw(9)); unsigned peek = s.draw(8);
  for(int i = 0; i < np; ++i) th.push_back([&, i] { for(int k = 0; k < cnt[i]; ++k) { int v = 1 + i * 100 + k; uint64_t b = sched::now(); if(k & 1) { T t(v); q.Push(t); } else q.Push(T(v)); uint64_t e = sched::now(); sched::quiet z; log[i].push_back({ 0, v, b, e }); } });
  for(int i = 0; i < nc; ++i) th.push_back([&, i] { for(int k = 0; k < pops[i]; ++k) { T t(0); uint64_t b; if(peek >> i & 1) { b = sched::now(); bool pk = q.Peek(); uint64_t e = sched::now(); sched::quiet z; if(!pk) { log[np + i].push_back({ 2, 0, b, e }); continue; } } b = sched::now(); bool ok = q.Pop(t); uint64_t e = sched::now(); sched::quiet z; int v = val(t); if(!ok) CHECK(v == 0, "an unsuccessful Pop changed its output"); log[np + i].push_back({ ok ? 1 : 2, v, b, e }); } });
  sched::run(s, th);
  // drain single-threaded
  uint64_t t0 = 1ull << 60; int popped = 0; for(auto& l : log) for(auto& e : l) popped += e.kind == 1;
  for(;;) { T t(0); bool pk = q.Peek(); bool ok = q.Pop(t); CHECK(pk == ok, "Peek says %d, Pop says %d", pk, ok); uint64_t b = t0++, e = t0++; log[np + nc].push_back({ ok ? 1 : 2, val(t), b, e }); if(!ok) break; CHECK(++popped <= total, "more values delivered than pushed"); }
  std::vector<Ev> all; for(auto& l : log) all.insert(all.end(), l.begin(), l.end()); if(s.verbose()) for(auto& e : all) s.note("%s %d [%llu,%llu]", e.kind == 0 ? "push" : e.kind == 1 ? "pop" : "pop-empty", e.v, (unsigned long long)e.b, (unsigned long long)e.e); fifo(all, true);
  s.note("%d producers %d consumers %d values %u switches", np, nc, total, sched::switches()); s.nontrivial(total >= 2 && sched::switches() >= np + nc + 1); if(sched::switches() > 20) s.label("more than 20 context switches");
}
template<class T> static void spsc(pbt::Src& s)
{
  live = 0; { sched::heap h; { typedef internal::LQ_QNode<T> N;
    if(s.boolean()) { typedef LocklessQueue<T, size_t, StandardAllocator<N>> Q; std::unique_ptr<Q> q(new Q()); drive<Q, T>(s, *q, 1, 1, true); CHECK(q->Length() == 0, "Length %zu after draining", (size_t)q->Length()); s.label("freeing allocator"); }
    else { typedef LocklessQueue<T, void, PolymorphicAllocator<N, BlockPolicy>> Q; BlockPolicy<N> pol(s.draw(4)); std::unique_ptr<Q> q(new Q(&pol)); drive<Q, T>(s, *q, 1, 1, false); } }
    CHECK(h.live() == 0, "%ld heap blocks leaked", h.live()); }
  if constexpr(tracked<T>) CHECK(live == 0, "%ld elements never destroyed", (long)live);
}
PROP(spsc, 1, 0, ">=2 values and at least one context switch more than threads") { switch(s.draw(3)) { case 0: spsc<int64_t>(s); break; case 1: spsc<Safe>(s); break; case 2: spsc<Reloc>(s); break; } }
template<class T> static void mpmc(pbt::Src& s)
{
  live = 0; { sched::heap h; { typedef internal::LQ_QNode<T> N; int np = 1 + (int)s.draw(3), nc = 1 + (int)s.draw(3);
    if(s.boolean()) { typedef MicroLockQueue<T, size_t, PolymorphicAllocator<N, LocklessBlockPolicy>> Q; LocklessBlockPolicy<N> pol(s.draw(4)); std::unique_ptr<Q> q(new Q(&pol)); drive<Q, T>(s, *q, np, nc, true); CHECK(q->Length() == 0, "Length %zu after draining", (size_t)q->Length()); }
    else { typedef MicroLockQueue<T, void, StandardAllocator<N>> Q; std::unique_ptr<Q> q(new Q()); drive<Q, T>(s, *q, np, nc, false); s.label("freeing allocator"); } }
    CHECK(h.live() == 0, "%ld heap blocks leaked", h.live()); }
  if constexpr(tracked<T>) CHECK(live == 0, "%ld elements never destroyed", (long)live);
}
PROP(mpmc, 2, 0, ">=2 values and at least one context switch more than threads") { switch(s.draw(3)) { case 0: mpmc<int64_t>(s); break; case 1: mpmc<Safe>(s); break; case 2: mpmc<Reloc>(s); break; } }
// a queue used from one thread is a plain FIFO, also across moves
template<class Q, class T, bool MOVE> static void single(pbt::Src& s)
{
  live = 0; { std::unique_ptr<Q> q(new Q()); std::vector<int> m; int stamp = 0, ops = 0;
  while(s.more()) { switch(s.pick({ 5, 4, 1 })) { case 0: { int v = ++stamp; if(s.boolean()) q->Push(T(v)); else { T t(v); q->Push(t); } m.push_back(v); break; } case 1: { T t(0); bool pk = q->Peek(), ok = q->Pop(t); CHECK(ok == !m.empty() && pk == ok, "Pop/Peek on %zu values", m.size()); if(ok) { CHECK(val(t) == m[0], "Pop gave %d expected %d", val(t), m[0]); m.erase(m.begin()); } break; } case 2: if constexpr(MOVE) { std::unique_ptr<Q> q2(new Q(std::move(*q))); if(s.boolean()) { q = std::move(q2); } else { std::unique_ptr<Q> q3(new Q()); for(int k = (int)s.draw(4); k > 0; --k) q3->Push(T(-k)); *q3 = std::move(*q2); q = std::move(q3); } break; } } CHECK((size_t)q->Length() == m.size(), "Length %zu expected %zu", (size_t)q->Length(), m.size()); ++ops; }
  s.note("%d ops", ops); s.nontrivial(ops >= 5); }
  if constexpr(tracked<T>) CHECK(live == 0, "%ld elements never destroyed", (long)live);
}
PROP(sequential, 1, 0, "history of >=5 operations") { switch(s.draw(4)) { case 0: single<LocklessQueue<Safe, size_t, StandardAllocator<internal::LQ_QNode<Safe>>>, Safe, true>(s); break; case 1: single<MicroLockQueue<Safe, size_t, StandardAllocator<internal::LQ_QNode<Safe>>>, Safe, true>(s); break; case 2: single<LocklessQueue<int64_t, uint16_t, StandardAllocator<internal::LQ_QNode<int64_t>>>, int64_t, true>(s); break; case 3: single<MicroLockQueue<int64_t, uint32_t, StandardAllocator<internal::LQ_QNode<int64_t>>>, int64_t, true>(s); break; } }
