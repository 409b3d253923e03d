// Circular buffers, FIFO queue, random queue against std::deque / multiset models.
// RELEASE: 0.4
#include "tracked.h"
#include "bss-util/ArrayCircular.h"
#include "bss-util/Queue.h"
#include "bss-util/RandomQueue.h"
#include <deque>
#include <set>
#include <array>
#include <algorithm>
using namespace bss;
using namespace trk;
typedef std::deque<int> D;

template<class T, class C, ARRAY_TYPE AT> static void circ(pbt::Src& s)
{
  typedef ArrayCircular<T, C, AT> A;
  live = 0;
  {
    std::unique_ptr<A> a[2]; D m[2]; size_t cap[2]; // front of the deque = most recently pushed
    for(int i = 0; i < 2; ++i) { cap[i] = 1 + s.draw(6); a[i].reset(new A((C)cap[i])); }
    bool wrapped = false, resized = false, over = false; size_t pushes[2] = { 0, 0 }; int ops = 0;
    uint64_t sw = s.swarm(10);
    while(s.more())
    {
      int w = (int)s.draw(2), o = 1 - w; A& x = *a[w]; D& mx = m[w]; const char* op = "";
      int k; do k = s.pick({ 14, 4, 4, 1, 2, 1, 1, 1, 1, 2 }); while(!((sw >> k) & 1));
      switch(k)
      {
      case 0: { op = "Push"; if(!cap[w]) continue; int v = (int)s.draw(100); if(s.boolean()) { T t(v); x.Push(t); } else x.Push(T(v)); mx.push_front(v); if(mx.size() > cap[w]) { mx.pop_back(); over = true; } if(++pushes[w] > cap[w]) wrapped = true; break; }
      case 1: { if(mx.empty()) continue; op = "Pop"; T t(x.Pop()); CHECK(val(t) == mx.front(), "Pop returned %d expected %d", val(t), mx.front()); mx.pop_front(); break; }
      case 2: { if(mx.empty()) continue; op = "PopBack"; T t(x.PopBack()); CHECK(val(t) == mx.back(), "PopBack returned %d expected %d", val(t), mx.back()); mx.pop_back(); break; }
      case 3: op = "Clear"; x.Clear(); mx.clear(); break;
      case 4: { op = "SetCapacity"; size_t n = s.draw(12); s.note("  to %zu", n); x.SetCapacity((C)n); if(n < cap[w]) mx.clear(); else resized |= !mx.empty() && n > cap[w]; cap[w] = n; pushes[w] = 0; break; }
      case 5: op = "copy-assign"; if(s.chance(1, 6)) { op = "self-assign"; A& z = x; x = z; break; } *a[o] = x; m[o] = mx; cap[o] = cap[w]; break;
      case 6: op = "copy-construct"; a[o].reset(new A(x)); m[o] = mx; cap[o] = cap[w]; break;
      case 7: op = "move-construct"; { std::unique_ptr<A> n(new A(std::move(x))); CHECK(x.Length() == 0, "moved-from buffer holds %zd elements", (ssize_t)x.Length()); if(s.boolean()) { x.SetCapacity(3); x.Push(T(7)); CHECK(x.Length() == 1 && val(x.Front()) == 7, "moved-from buffer is unusable"); } a[w] = std::move(n); } break;
      case 8: op = "move-assign"; *a[o] = std::move(x); m[o] = mx; cap[o] = cap[w]; mx.clear(); cap[w] = 0; x.SetCapacity(3); cap[w] = 3; break;
      case 9: { if(mx.empty()) continue; op = "write"; size_t i = s.draw(mx.size()); int v = (int)s.draw(100); x[(C)i] = T(v); mx[i] = v; break; }
      }
      ++ops; s.note("%c.%s len %zu cap %zu", 'A' + w, op, m[w].size(), cap[w]);
      size_t tot = 0;
      for(int j = 0; j < 2; ++j)
      {
        const A& c = *a[j]; const D& d = m[j]; tot += d.size();
        CHECK((size_t)c.Length() == d.size(), "%c length %zd expected %zu after %s", 'A' + j, (ssize_t)c.Length(), d.size(), op);
        CHECK((size_t)c.Capacity() == cap[j], "%c capacity after %s", 'A' + j, op);
        for(size_t i = 0; i < d.size(); ++i) CHECK(val(c[(C)i]) == d[i], "%c[%zu] is %d expected %d after %s", 'A' + j, i, val(c[(C)i]), d[i], op);
        if(!d.empty()) CHECK(val(c.Front()) == d.front() && val(c.Back()) == d.back() && val(a[j]->Front()) == d.front() && val(a[j]->Back()) == d.back(), "front/back after %s", op);
        size_t n = 0; for(auto& e : *a[j]) { CHECK(n < d.size() && val(e) == d[n], "iteration after %s", op); ++n; }
        CHECK(n == d.size(), "iteration length after %s", op);
        if(s.chance(1, 6)) { if(s.boolean()) walk<true>(s, a[j]->begin(), a[j]->end(), d.size(), [&](auto& it, size_t i) { CHECK(val(*it) == d[i], "iterator at %zu yields %d expected %d after %s", i, val(*it), d[i], op); }); else walk<true>(s, c.begin(), c.end(), d.size(), [&](auto& it, size_t i) { CHECK(val(*it) == d[i], "const iterator at %zu yields %d expected %d after %s", i, val(*it), d[i], op); }); }
      }
      if constexpr(tracked<T>) CHECK(live == (long)tot, "%ld live elements, containers hold %zu after %s", live, tot, op);
    }
    s.nontrivial(ops >= 5 && (wrapped || resized));
    if(resized) s.label("grown while holding elements"); if(over) s.label("overwrote oldest");
  }
  if constexpr(tracked<T>) CHECK(live == 0, "%ld elements never destroyed", live);
}
PROP(circular, 2, pbt::LEAKCHECK, "two circular arrays, >=5 operations, buffer wrapped or grown while non-empty")
{
  switch(s.draw(4)) { case 0: circ<int, ptrdiff_t, ARRAY_SIMPLE>(s); break; case 1: circ<Reloc, ptrdiff_t, ARRAY_CONSTRUCT>(s); break; case 2: circ<Safe, int, ARRAY_SAFE>(s); break; case 3: circ<Safe, ptrdiff_t, ARRAY_SAFE>(s); break; }
}

template<class T, ARRAY_TYPE AT> static void queue(pbt::Src& s)
{
  typedef Queue<T, ptrdiff_t, AT> Q;
  live = 0;
  {
    std::unique_ptr<Q> q(new Q((ptrdiff_t)s.draw(5))); D m; int pops = 0; size_t peak = 0; bool regrow = false;
    uint64_t sw = s.swarm(7); 
    while(s.more())
    {
      int k; do k = s.pick({ 12, 8, 2, 1, 1, 1, 1 }); while(!((sw >> k) & 1));
      ptrdiff_t c0 = q->Capacity();
      switch(k)
      {
      case 0: { int v = (int)s.draw(1000); if(s.boolean()) { T t(v); q->Push(t); } else q->Push(T(v)); m.push_back(v); regrow |= q->Capacity() != c0 && pops; break; }
      case 1: { if(m.empty()) continue; T t(q->Pop()); CHECK(val(t) == m.front(), "popped %d expected %d", val(t), m.front()); m.pop_front(); ++pops; break; }
      case 2: { if(m.empty()) continue; q->Discard(); m.pop_front(); ++pops; break; }
      case 3: q->Clear(); m.clear(); break;
      case 4: { std::unique_ptr<Q> n(new Q(*q)); q = std::move(n); break; }
      case 5: { std::unique_ptr<Q> n(new Q(std::move(*q))); CHECK(q->Length() == 0 && q->Empty(), "moved-from queue not empty"); q->Push(T(7)); CHECK(q->Length() == 1 && val(q->Peek()) == 7, "moved-from queue is unusable"); q = std::move(n); break; }
      case 6: { auto junk = [&](Q& x) { size_t c = s.draw(7), r = s.draw(c + 1); for(size_t i = 0; i < c; ++i) x.Push(T(5000 + (int)i)); for(size_t i = 0; i < r; ++i) x.Discard(); }; Q n; junk(n); n = *q; Q z; junk(z); z = std::move(n); if(s.boolean()) junk(*q); *q = z; break; }
      }
      peak = std::max(peak, m.size());
      CHECK((size_t)q->Length() == m.size() && q->Empty() == m.empty() && (size_t)q->Capacity() >= m.size(), "length %zd expected %zu", (ssize_t)q->Length(), m.size());
      if(!m.empty()) CHECK(val(q->Peek()) == m.front() && val(((const Q&)*q).Peek()) == m.front(), "peek %d expected %d", val(q->Peek()), m.front());
      if constexpr(tracked<T>) CHECK(live == (long)m.size(), "%ld live elements, queue holds %zu", live, m.size());
      s.note("queue op %d -> %zu items", k, m.size());
    }
    while(!m.empty()) { T t(q->Pop()); CHECK(val(t) == m.front(), "drain %d expected %d", val(t), m.front()); m.pop_front(); }
    s.nontrivial(pops >= 2 && peak >= 3 && regrow);
  }
  if constexpr(tracked<T>) CHECK(live == 0, "%ld elements never destroyed", live);
}
PROP(fifo, 2, pbt::LEAKCHECK, "FIFO history with >=2 pops, depth >=3 and a reallocation after a pop")
{
  switch(s.draw(3)) { case 0: queue<int, ARRAY_SIMPLE>(s); break; case 1: queue<Reloc, ARRAY_CONSTRUCT>(s); break; case 2: queue<Safe, ARRAY_SAFE>(s); break; }
}

template<class T, ARRAY_TYPE AT> static void randq(pbt::Src& s)
{
  typedef RandomQueue<T, uint32_t, AT> Q; live = 0;
  {
    Q q((uint32_t)s.draw(4)); std::multiset<int> m; int pops = 0; XorshiftEngine<uint64_t> e; e.seed(s.draw(0) | 1);
    while(s.more())
    {
      switch(s.pick({ 10, 6, 2, 1, 1, 1 }))
      {
      case 0: { int v = (int)s.draw(50); if(s.boolean()) { T t(v); q.Push(t); } else q.Push(T(v)); m.insert(v); break; }
      case 1: { if(m.empty()) continue; T t(q.Pop(e)); auto it = m.find(val(t)); CHECK(it != m.end(), "popped %d which is not in the queue", val(t)); m.erase(it); ++pops; break; }
      case 2: { if(m.empty()) continue; uint32_t i = (uint32_t)s.draw(m.size()); int v = val(q.begin()[i]); q.Remove(i); auto it = m.find(v); CHECK(it != m.end(), "removed unknown"); m.erase(it); ++pops; break; }
      case 3: q.Clear(); m.clear(); break;
      case 4: { Q n(q); n += q; q = n; std::multiset<int> c = m; for(int v : c) m.insert(v); if(m.size() > 200) { q.Clear(); m.clear(); } break; }
      case 5: { Q n(std::move(q)); CHECK(q.Length() == 0 && q.Empty(), "moved-from queue not empty"); q.Push(T(7)); CHECK(q.Length() == 1, "moved-from queue is unusable"); q = std::move(n); break; }
      }
      CHECK(q.Length() == m.size() && q.Empty() == m.empty(), "length %u expected %zu", q.Length(), m.size());
      std::multiset<int> g; for(auto& x : q) g.insert(val(x));
      CHECK(g == m, "contents differ");
      if constexpr(tracked<T>) CHECK(live == (long)m.size(), "%ld live elements, queue holds %zu", live, m.size());
    }
    s.note("%zu left after %d pops", m.size(), pops);
    s.nontrivial(pops >= 3);
  }
  if constexpr(tracked<T>) CHECK(live == 0, "%ld elements never destroyed", live);
}
PROP(randomqueue, 1, pbt::LEAKCHECK, "history with >=3 random pops/removals")
{
  switch(s.draw(3)) { case 0: randq<int, ARRAY_SIMPLE>(s); break; case 1: randq<Reloc, ARRAY_CONSTRUCT>(s); break; case 2: randq<Safe, ARRAY_SAFE>(s); break; }
}
