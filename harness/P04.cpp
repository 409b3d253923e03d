// Heaps and priority queues against sorted multisets.
// RELEASE: 0.4
// LIBS: HighPrecisionTimer.cpp
#include "tracked.h"
#include "bss-util/BinaryHeap.h"
#include "bss-util/PriorityQueue.h"
#include "bss-util/Scheduler.h"
#include <map>
#include <set>
#include <functional>
using namespace bss;
using namespace trk;

template<class T, char(*CF)(const T&, const T&), ARRAY_TYPE AT, bool MIN> static void heap(pbt::Src& s)
{
  typedef BinaryHeap<T, size_t, CF, AT> H;
  live = 0;
  {
    std::unique_ptr<H> h(new H()); std::multiset<int> m; int ops = 0; size_t peak = 0; bool mid = false, settled = false;
    int dom = (int)(2 + s.draw(100)); uint64_t sw = s.swarm(7);
    auto top = [&]() { return MIN ? *m.begin() : *m.rbegin(); };
    while(s.more())
    {
      int k; do k = s.pick({ 12, 6, 4, 4, 1, 1, 1 }); while(!((sw >> k) & 1));
      switch(k)
      {
      case 0: { int v = (int)s.draw(dom); if(s.boolean()) { T t(v); h->Insert(t); } else h->Insert(T(v)); m.insert(v); s.note("insert %d", v); break; }
      case 1: { if(m.empty()) continue; int e = top(); T t(h->Pop()); CHECK(val(t) == e, "Pop returned %d expected %d", val(t), e); m.erase(m.find(e)); s.note("pop %d", e); break; }
      case 2: { size_t i = s.draw(m.size() + 2); int v = i < m.size() ? val(h->Get(i)) : 0; bool r = h->Remove(i); CHECK(r == (i < m.size()), "Remove(%zu) returned %d", i, r); if(r) { auto it = m.find(v); CHECK(it != m.end(), "heap contained unknown %d", v); m.erase(it); mid |= i > 0; } s.note("remove #%zu (%d)", i, v); break; }
      case 3: { size_t i = s.draw(m.size() + 2); int v = (int)s.draw(dom); if(i < m.size()) { auto it = m.find(val(h->Get(i))); CHECK(it != m.end(), "unknown element"); m.erase(it); m.insert(v); } bool r; T t(v); if(s.boolean()) r = h->Set(i, t); else r = h->Set(i, T(v)); CHECK(r == (i < h->Length()), "Set returned %d", r); settled |= r; s.note("set #%zu = %d", i, v); break; }
      case 4: h->Clear(); m.clear(); break;
      case 5: { H& self = *h; *h = self; std::unique_ptr<H> n(new H(*h)); h = std::move(n); break; }
      case 6: { std::unique_ptr<H> n(new H(std::move(*h))); CHECK(h->Length() == 0 && h->Empty(), "moved-from heap not empty"); for(size_t c = s.draw(6); c > 0; --c) h->Insert(T((int)s.draw(dom))); *h = *n; for(size_t c = s.draw(6); c > 0; --c) n->Insert(T((int)s.draw(dom))); *n = std::move(*h); h = std::move(n); break; }
      }
      ++ops; peak = std::max(peak, m.size());
      CHECK(h->Length() == m.size() && h->Empty() == m.empty(), "length %zu expected %zu", (size_t)h->Length(), m.size());
      if(!m.empty()) CHECK(val(h->Peek()) == top(), "Peek %d expected %d", val(h->Peek()), top());
      std::multiset<int> g; for(auto& e : *h) g.insert(val(e)); CHECK(g == m, "contents differ after op %d", k);
      if constexpr(tracked<T>) CHECK(live == (long)m.size(), "%ld live, heap holds %zu", live, m.size());
    }
    while(!m.empty()) { int e = top(); T t(h->Pop()); CHECK(val(t) == e, "drain: Pop returned %d expected %d", val(t), e); m.erase(m.find(e)); }
    s.nontrivial(ops >= 5 && peak >= 4); if(mid) s.label("removal below the top"); if(settled) s.label("key changed in place");
  }
  if constexpr(tracked<T>) CHECK(live == 0, "%ld elements never destroyed", live);
}
PROP(binaryheap, 2, pbt::LEAKCHECK, "heap history of >=5 operations reaching >=4 elements, drained at the end")
{
  switch(s.draw(4)) { case 0: heap<int, CompT<int>, ARRAY_SIMPLE, false>(s); break; case 1: heap<int, CompTInv<int>, ARRAY_SIMPLE, true>(s); break; case 2: heap<Reloc, CompT<Reloc>, ARRAY_CONSTRUCT, false>(s); break; case 3: heap<Safe, CompTInv<Safe>, ARRAY_SAFE, true>(s); break; }
}
PROP(heapsort, 1, 0, "array of >=3 values heapified and sorted")
{
  std::vector<int> v; int dom = (int)(2 + s.draw(1000)); while(s.more()) v.push_back((int)s.draw(dom)); if(v.empty()) v.push_back(1);
  std::vector<int> a = v, b = v, e = v; std::sort(e.begin(), e.end());
  BinaryHeap<int>::HeapSort(a.data(), a.size()); CHECK(a == e, "max-heap sort of %zu", v.size());
  BinaryHeap<int, size_t, CompTInv<int>>::HeapSort(b.data(), b.size()); std::reverse(e.begin(), e.end()); CHECK(b == e, "min-heap sort of %zu", v.size());
  { int f[7], g[7]; for(size_t i = 0; i < 7; ++i) f[i] = g[i] = i < v.size() ? v[i] : 3; BinaryHeap<int>::HeapSort(f); std::sort(g, g + 7); CHECK(std::equal(f, f + 7, g), "sort of a fixed array"); }
  std::vector<int> c = v; BinaryHeap<int, uint32_t>::Heapify(c.data(), (uint32_t)c.size());
  for(size_t i = 1; i < c.size(); ++i) CHECK(c[(i - 1) / 2] >= c[i], "heap order at %zu of %zu", i, c.size());
  std::sort(c.begin(), c.end()); std::reverse(e.begin(), e.end()); CHECK(c == e, "heapify lost elements");
  s.note("%s", s.verbose() ? str(v).c_str() : ""); s.nontrivial(v.size() >= 3);
}
template<char(*CF)(const int&, const int&), bool MIN> static void pq(pbt::Src& s)
{
  typedef PriorityQueue<int, int, CF> Q; std::unique_ptr<Q> q(new Q()); std::multimap<int, int> m; int stamp = 0, ops = 0; size_t peak = 0; int dom = (int)(2 + s.draw(60));
  auto take = [&](const std::pair<int, int>& p, const char* op) { int e = MIN ? m.begin()->first : m.rbegin()->first; CHECK(p.first == e, "%s returned priority %d expected %d", op, p.first, e); auto r = m.equal_range(p.first); auto it = r.first; while(it != r.second && it->second != p.second) ++it; CHECK(it != r.second, "%s returned a value that was not queued with priority %d", op, p.first); return it; };
  while(s.more())
  {
    switch(s.pick({ 12, 6, 2, 3, 1, 1 }))
    {
    case 0: { int k = (int)s.draw(dom); q->Push(k, ++stamp); m.insert({ k, stamp }); break; }
    case 1: { if(m.empty()) continue; m.erase(take(q->Pop(), "Pop")); break; }
    case 2: { if(m.empty()) continue; auto it = take(q->Peek(), "Peek"); q->Discard(); m.erase(it); break; }
    case 3: { if(m.empty()) continue; size_t i = s.draw(m.size()); auto p = q->Get(i); auto r = m.equal_range(p.first); auto it = r.first; while(it != r.second && it->second != p.second) ++it; CHECK(it != r.second, "Get(%zu)", i); CHECK(q->Remove(i), "Remove"); m.erase(it); break; }
    case 4: { Q& self = *q; *q = self; std::unique_ptr<Q> n(new Q(*q)); q = std::move(n); break; }
    case 5: { std::unique_ptr<Q> n(new Q(std::move(*q))); CHECK(q->Empty() && q->Length() == 0, "moved-from queue not empty"); if(s.boolean()) { for(size_t c = s.draw(6); c > 0; --c) q->Push((int)s.draw(dom), -1); if(s.boolean()) *q = *n; else *q = std::move(*n); break; } q = std::move(n); break; }
    }
    ++ops; peak = std::max(peak, m.size()); CHECK(q->Length() == m.size() && q->Empty() == m.empty(), "length");
    if(!m.empty()) take(q->Peek(), "Peek");
  }
  while(!m.empty()) m.erase(take(q->Pop(), "drain Pop"));
  s.note("%d ops, peak %zu", ops, peak); s.nontrivial(ops >= 5 && peak >= 4);
}
PROP(priorityqueue, 1, pbt::LEAKCHECK, "history of >=5 operations reaching >=4 entries") { if(s.boolean()) pq<CompT<int>, false>(s); else pq<CompTInv<int>, true>(s); }

PROP(priorityheap, 1, pbt::LEAKCHECK, "handle-addressed heap: >=5 operations, >=4 live handles, some handle updated or removed")
{
  typedef PriorityHeap<int> Q; std::unique_ptr<Q> q(new Q()); std::map<size_t, int> m; int ops = 0; size_t peak = 0; bool h = false; int dom = (int)(2 + s.draw(60));
  while(s.more())
  {
    auto pickh = [&]() { return std::next(m.begin(), s.draw(m.size())); };
    auto mx = [&]() { int b = m.begin()->second; for(auto& e : m) b = std::max(b, e.second); return b; };
    switch(s.pick({ 12, 4, 4, 5, 1, 1, 1 }))
    {
    case 0: { int v = (int)s.draw(dom); size_t k = q->Push(v); CHECK(!m.count(k), "Push returned a handle that is in use"); m[k] = v; s.note("push %d -> handle %zu", v, k); break; }
    case 1: { if(m.empty()) continue; int e = mx(); // remove the entry through its handle: find who is on top is not observable for ties, so make the top unique
      size_t n = 0, key = 0; for(auto& x : m) if(x.second == e) { ++n; key = x.first; }
      if(n != 1) continue; int r = q->Pop(); CHECK(r == e, "Pop returned %d expected %d", r, e); m.erase(key); s.note("pop"); break; }
    case 2: { if(m.empty()) continue; auto it = pickh(); s.note("remove handle %zu", it->first); CHECK(q->Remove(it->first), "Remove"); m.erase(it); h = true; break; }
    case 3: { if(m.empty()) continue; auto it = pickh(); int v = (int)s.draw(dom); s.note("set handle %zu = %d", it->first, v); CHECK(q->Set(it->first, v), "Set"); it->second = v; h = true; break; }
    case 4: { std::unique_ptr<Q> n(new Q(*q)); q = std::move(n); s.note("copy"); break; }
    case 5: { std::unique_ptr<Q> n(new Q(std::move(*q))); if(s.boolean()) { auto k = q->Push(5); CHECK(q->Length() == 1 && q->Get(k) == 5, "a moved-from heap cannot be used again"); } q = std::move(n); s.note("move"); break; }
    case 6: { auto junk = [&](Q& x) { std::vector<size_t> hs; for(size_t c = s.draw(9); c > 0; --c) hs.push_back(x.Push((int)s.draw(dom))); if(s.boolean()) for(size_t c = s.draw(hs.size() + 1); c > 0; --c) x.Remove(hs[c - 1]); }; Q n; junk(n); n = *q; if(s.boolean()) junk(*q); *q = std::move(n); s.note("assign"); if(s.boolean()) { CHECK(n.Empty(), "moved-from heap not empty"); auto k = n.Push(5); CHECK(n.Length() == 1 && n.Get(k) == 5, "a moved-from heap cannot be used again"); auto k2 = n.Push(6); CHECK(n.Peek() == 6 && n.Get(k) == 5 && n.Get(k2) == 6, "a moved-from heap cannot be used again"); } break; }
    }
    ++ops; peak = std::max(peak, m.size()); CHECK(q->Length() == m.size() && q->Empty() == m.empty(), "length");
    for(auto& e : m) CHECK(q->Get(e.first) == e.second, "handle %zu holds %d expected %d", e.first, q->Get(e.first), e.second);
    if(!m.empty()) CHECK(q->Peek() == mx(), "Peek %d expected %d", q->Peek(), mx());
  }
  s.nontrivial(ops >= 5 && peak >= 4 && h);
}

PROP(scheduler, 0.7, pbt::LEAKCHECK, ">=3 due events, run in due order, some rescheduled, some not yet due")
{
  typedef std::function<double(void)> F;
  std::vector<int> ran; std::vector<std::pair<double, int>> due; size_t future = 0, resched = 0; 
  {
    Scheduler<F> sch; int n = 0; std::vector<int> left(64, 0);
    while(n < 30 && s.more(8))
    {
      int id = n++; bool fut = s.chance(1, 4);
      if(fut) { ++future; sch.Add(1e12 + (double)s.draw(1000), [&ran, id]() -> double { ran.push_back(id); return 0.0; }); continue; }
      double t = -1.0 - (double)s.draw(500) - id * 1e-3; int rep = (int)s.draw(3); left[id] = rep;
      due.push_back({ t, id });
      sch.Add(t, [&ran, &left, id]() -> double { ran.push_back(id); if(left[id] > 0) { --left[id]; return -1e13; } return 0.0; });
      if(rep == 2) ++resched;
    }
    CHECK(sch.Length() == (size_t)n, "length");
    sch.Update();
    std::sort(due.begin(), due.end());
    std::vector<int> exp, rest(64, 0); for(auto& d : due) { exp.push_back(d.second); }
    // an event that asks to run again at a time before everything else runs again at once
    std::vector<int> e2; size_t p = 0; (void)p;
    std::vector<int> seen(64, 0), order; for(int id : ran) { if(!seen[id]++) order.push_back(id); }
    CHECK(order == exp, "events ran in order %s, due order %s", str(order).c_str(), str(exp).c_str());
    for(size_t i = 1; i < ran.size(); ++i) if(seen[ran[i]] > 1 && ran[i] != ran[i - 1]) { int c = 0; for(size_t j = 0; j < i; ++j) c += ran[j] == ran[i]; CHECK(c == 0, "rescheduled event %d did not run at once", ran[i]); }
    for(auto& d : due) CHECK(left[d.second] == 0, "event %d was not run again as requested", d.second);
    CHECK(sch.Length() == future, "%zu events left, expected %zu", (size_t)sch.Length(), future);
    size_t before = ran.size(); sch.Update(); CHECK(ran.size() == before, "an event ran although it was not due");
    s.note("%zu due, %zu future, %zu runs", due.size(), future, ran.size());
  }
  s.nontrivial(due.size() >= 3 && resched);
}
