// Linked lists, intrusive list primitives and array-backed linked lists against std::list.
// RELEASE: 0.4
#include "tracked.h"
#include "bss-util/bss_util.h"
#include "bss-util/LinkedList.h"
#include "bss-util/LinkedArray.h"
#include "bss-util/BlockAlloc.h"
#include <list>
#include <map>
using namespace bss;
using namespace trk;

struct Big { int v; char pad[20]; Big(int x = 0) : v(x) { memset(pad, x, sizeof pad); } bool operator!=(const Big& b) const { return v != b.v; } };
static int val(const Big& b) { return b.v; }

template<class T, class L, bool LAST, bool SIZE> static void list(pbt::Src& s)
{
  typedef LLNode<T> N; live = 0;
  {
    std::unique_ptr<L> l(new L()); std::list<std::pair<int, N*>> m; int ops = 0, stamp = 0; size_t peak = 0; bool mid = false; int dom = 1 + (int)s.draw(8);
    auto at = [&](size_t i) { auto it = m.begin(); std::advance(it, i); return it; };
    while(s.more())
    {
      switch(s.pick({ 8, 3, 6, 6, 3, 3, 1, 1, 1, 2, 1 }))
      {
      case 0: { int v = s.boolean() ? ++stamp : (int)s.draw(dom); N* n = l->Add(T(v)); if(LAST) m.push_back({ v, n }); else m.push_front({ v, n }); break; }
      case 1: { int v = ++stamp; N* n = l->Insert(T(v)); m.push_front({ v, n }); break; }
      case 2: { int v = ++stamp; size_t i = s.draw(m.size() + 1); if(i == m.size()) { N* n = l->Insert(T(v), (N*)0); if(LAST) m.push_back({ v, n }); else m.push_front({ v, n }); } else { auto it = at(i); N* n = l->Insert(T(v), it->second); m.insert(it, { v, n }); mid |= i > 0; } break; }
      case 3: { if(m.empty()) continue; size_t i = s.draw(m.size()); auto it = at(i); if(s.boolean()) l->Remove(it->second); else { LLIter<T> li(it->second); l->Remove(li); } mid |= i > 0 && i + 1 < m.size(); m.erase(it); break; }
      case 4: { if(m.empty()) continue; size_t i = s.draw(m.size()); auto it = at(i); bool back = s.boolean(); N* e = back ? (it == m.begin() ? 0 : std::prev(it)->second) : (std::next(it) == m.end() ? 0 : std::next(it)->second); N* r = l->Remove(it->second, back); CHECK(r == e, "Remove(node, %d) returned the wrong neighbour", back); m.erase(it); break; }
      case 5: { if(m.empty()) continue; int v = (int)s.draw(dom + 2); size_t i = s.draw(m.size() + 1); N* from = i == m.size() ? 0 : at(i)->second; bool back = LAST && s.boolean(); auto st = from ? at(i) : m.begin(); N* e = 0; auto it = st; do { if(it->first == v) { e = it->second; break; } if(back) { if(it == m.begin()) it = m.end(); --it; } else { ++it; if(it == m.end()) it = m.begin(); } } while(it != st); N* r; if constexpr(LAST) r = l->Item(T(v), from, back); else r = l->Item(T(v), from); CHECK(r == e, "Item(%d) found the wrong node", v); break; }
      case 6: l->Clear(); m.clear(); break;
      case 7: { std::unique_ptr<L> n(new L(std::move(*l))); CHECK(!l->Front(), "moved-from list not empty"); if constexpr(SIZE) CHECK(l->Length() == 0, "moved-from list counts %zu elements", (size_t)l->Length()); if(s.boolean()) { l->Add(T(3)); CHECK(l->Front() && !l->Front()->next, "moved-from list cannot be used again"); } l = std::move(n); break; }
      case 9: { std::unique_ptr<L> n; if(s.boolean()) n.reset(new L(*l)); else { n.reset(new L()); for(int k = (int)s.draw(4); k > 0; --k) n->Add(T(-k)); const L& src = *l; *n = src; }
        if(s.chance(1, 4)) { const L& self = *n; *n = self; }
        size_t c = 0; auto e = m.begin(); for(N* q = l->Front(); q; q = q->next, ++c) CHECK(val(q->item) == std::next(m.begin(), c)->first, "the original of a copy changed"); CHECK(c == m.size(), "the original of a copy changed");
        if(s.boolean()) l->Clear(); for(N* q = n->Front(); q; q = q->next) { CHECK(e != m.end() && val(q->item) == e->first, "copy differs"); CHECK(q != e->second || !l->Front(), "copy shares nodes"); (e++)->second = q; } CHECK(e == m.end(), "copy is short"); l = std::move(n); break; }
      case 10: { if(m.size() > 200) continue; if constexpr(LAST) { if(s.boolean()) { *l += *l; size_t n = m.size(); auto e = m.begin(); N* q = l->Front(); for(size_t i = 0; i < n; ++i, ++e) q = q->next; for(e = m.begin(); n-- > 0; ++e, q = q->next) { CHECK(q, "list added to itself is too short"); m.push_back({ e->first, q }); } CHECK(!q, "list added to itself is too long"); break; } }
        L o; std::vector<int> v; for(int k = (int)s.draw(4); k > 0; --k) { int x = ++stamp; o.Add(T(x)); } for(N* q = o.Front(); q; q = q->next) v.push_back(val(q->item)); { L sum(*l + o); size_t c = 0; for(N* q = sum.Front(); q; q = q->next) ++c; CHECK(c == m.size() + v.size(), "sum of two lists"); } *l += o;
        if(LAST) { N* q = l->Front(); for(size_t i = m.size(); i > 0; --i) q = q->next; for(int x : v) { CHECK(q && val(q->item) == x, "appended list"); m.push_back({ x, q }); q = q->next; } } else { std::vector<N*> at; N* q = l->Front(); for(size_t i = 0; i < v.size(); ++i, q = q->next) { CHECK(q, "appended list"); at.push_back(q); } std::vector<int> g; for(N* a : at) g.push_back(val(a->item)); auto gs = g, vs = v; std::sort(gs.begin(), gs.end()); std::sort(vs.begin(), vs.end()); CHECK(gs == vs, "appended list"); for(size_t i = at.size(); i-- > 0;) m.push_front({ g[i], at[i] }); } break; }
      case 8: { L n; n.Add(T(1)); n = std::move(*l); CHECK(!l->Front(), "moved-from list not empty"); if constexpr(SIZE) CHECK(l->Length() == 0, "moved-from list counts %zu elements", (size_t)l->Length()); if(s.boolean()) l->Add(T(2)); *l = std::move(n); break; }
      }
      ++ops; peak = std::max(peak, m.size());
      { const auto& cl = *l; auto ci = cl.begin(); for(auto& e : m) { CHECK(ci != cl.end() && !(ci == cl.end()) && ci.cur == e.second && &*ci == &e.second->item, "const iteration"); ++ci; } CHECK(ci == cl.end() && !(ci != cl.end()) && cl.Front() == (m.empty() ? (N*)0 : m.front().second), "const iteration does not end"); }
      auto it = l->begin(); N* prev = 0; size_t c = 0; for(auto& e : m) { CHECK(it.IsValid() && it != l->end(), "list ends after %zu of %zu", c, m.size()); CHECK(it.cur == e.second, "node %zu is not the one returned by the insertion", c); CHECK(val(*it) == e.first, "value"); CHECK(it.cur->prev == prev, "prev link at %zu", c); prev = it.cur; ++it; ++c; } CHECK(!it.IsValid() && it == l->end(), "list longer than %zu", m.size()); if(s.chance(1, 5)) { std::vector<N*> ord; for(auto& e : m) ord.push_back(e.second); walk<false>(s, l->begin(), l->end(), ord.size(), [&](auto& i, size_t k) { CHECK(i.cur == ord[k] && i.operator->() == &ord[k]->item && !!i, "iterator walk at %zu", k); }); }
      if constexpr(tracked<T>) CHECK(live == (long)m.size(), "%ld live items, list holds %zu", live, m.size());
      CHECK(l->Front() == (m.empty() ? 0 : m.front().second), "Front"); if constexpr(LAST) CHECK(l->Back() == (m.empty() ? 0 : m.back().second), "Back"); if constexpr(SIZE) CHECK(l->Length() == m.size(), "Length %zu expected %zu", l->Length(), m.size());
    }
    s.note("%d ops, peak %zu", ops, peak); s.nontrivial(ops >= 5 && peak >= 3); if(mid) s.label("edit in the middle");
  }
  CHECK(live == 0, "%ld items never destroyed", live);
}
PROP(linkedlist, 1, pbt::LEAKCHECK, "history of >=5 operations reaching >=3 nodes")
{
  typedef StandardAllocator<LLNode<int>> A; typedef StandardAllocator<LLNode<Big>> AB;
  typedef StandardAllocator<LLNode<Safe>> AS; switch(s.draw(7)) { case 5: list<Safe, LinkedList<Safe, AS, true, true>, true, true>(s); break; case 6: list<Safe, LinkedList<Safe>, false, false>(s); break; case 0: list<int, LinkedList<int>, false, false>(s); break; case 1: list<int, LinkedList<int, A, true, true>, true, true>(s); break; case 2: list<int, LinkedList<int, A, false, true>, false, true>(s); break; case 3: list<int, LinkedList<int, A, true, false>, true, false>(s); break; case 4: list<Big, LinkedList<Big, AB, true, true>, true, true>(s); break; }
}

struct Node : LLBase<Node> { int id; };
struct Alt { int id; LLBase<Alt> ll; };
static LLBase<Alt>& getll(Alt* a) { return a->ll; }
PROP(intrusive, 1, 0, "history of >=5 intrusive list edits")
{
  Node pool[12]; for(int i = 0; i < 12; ++i) { pool[i].id = i; pool[i].next = pool[i].prev = (Node*)0x10; } std::list<Node*> m; Node* root = 0; Node* last = 0; int ops = 0;
  Alt ap[8]; for(int i = 0; i < 8; ++i) { ap[i].id = i; ap[i].ll.next = ap[i].ll.prev = (Alt*)0x10; } std::list<Alt*> am; Alt* aroot = 0;
  bool haslast = s.boolean(); // the single-pointer variants do not maintain last
  while(s.more())
  {
    Node* n = &pool[s.draw(12)]; auto it = std::find(m.begin(), m.end(), n);
    if(it != m.end()) { if(haslast) LLRemove(n, root, last); else if(n != root || s.boolean()) LLRemove(n, root); else { LLRemove(n, root); } m.erase(it); }
    else
    {
      size_t i = m.empty() ? 0 : s.draw(m.size()); auto t = m.begin(); std::advance(t, i);
      switch(s.draw(4))
      {
      case 0: if(haslast) LLAdd(n, root, last); else LLAdd(n, root); m.push_front(n); break;
      case 1: if(haslast) { if(last && s.boolean()) last = LLAddAfter(n, last); else LLAddAfter(n, root, last); m.push_back(n); } else { LLAdd(n, root); m.push_front(n); } break;
      case 2: if(m.empty()) { if(haslast) LLAdd(n, root, last); else LLAdd(n, root); m.push_front(n); } else { if(*t != root && s.boolean()) LLInsert(n, *t); else LLInsert(n, *t, root); m.insert(t, n); } break;
      case 3: if(m.empty()) { if(haslast) LLAdd(n, root, last); else LLAdd(n, root); m.push_front(n); } else { if(haslast && (std::next(t) == m.end() || s.boolean())) LLInsertAfter(n, *t, last); else LLInsertAfter(n, *t); m.insert(std::next(t), n); } break;
      }
    }
    Alt* a = &ap[s.draw(8)]; auto ai = std::find(am.begin(), am.end(), a); if(ai != am.end()) { AltLLRemove<Alt, getll>(a, aroot); am.erase(ai); } else { AltLLAdd<Alt, getll>(a, aroot); am.push_front(a); }
    ++ops;
    Node* c = root; Node* p = 0; for(Node* e : m) { CHECK(c == e && c->prev == p, "intrusive list order"); p = c; c = c->next; } CHECK(!c, "list too long"); if(haslast) CHECK(last == (m.empty() ? 0 : m.back()), "last");
    LLIterator<Node> li(root); for(Node* e : m) { CHECK(*li == e && li->id == e->id, "iterator"); ++li; } CHECK(!li.IsValid() && !li == true, "iterator end"); if(s.chance(1, 5)) { std::vector<Node*> ord(m.begin(), m.end()); walk<false>(s, LLIterator<Node>(root), LLIterator<Node>(), ord.size(), [&](auto& i, size_t k) { CHECK(*i == ord[k], "iterator walk at %zu", k); }); }
    Alt* ac = aroot; Alt* apv = 0; for(Alt* e : am) { CHECK(ac == e && ac->ll.prev == apv, "alternate list order"); apv = ac; ac = ac->ll.next; } CHECK(!ac, "alternate list too long");
  }
  s.note("%d edits", ops); s.nontrivial(ops >= 5);
}

template<class T, class CT, ARRAY_TYPE AT> static void larray(pbt::Src& s)
{
  typedef LinkedArray<T, CT, AT> L; live = 0;
  {
    std::unique_ptr<L> l(s.boolean() ? new L() : new L((CT)s.draw(20))); std::list<std::pair<int, CT>> m; int ops = 0, stamp = 0; size_t peak = 0; bool reuse = false, mid = false; size_t removed = 0;
    auto junk = [&](L& x) { std::vector<CT> hs; for(size_t c = s.draw(9); c > 0; --c) hs.push_back(x.Add(T(9))); for(size_t c = s.draw(hs.size() + 1); c > 0; --c) x.Remove(hs[c - 1]); };
    auto at = [&](size_t i) { auto it = m.begin(); std::advance(it, i); return it; };
    while(s.more())
    {
      switch(s.pick({ 8, 5, 5, 7, 1, 1, 1, 1 }))
      {
      case 0: { int v = ++stamp; CT i; if(s.boolean()) { T t(v); i = l->Add(t); } else i = l->Add(T(v)); m.push_back({ v, i }); reuse |= removed > 0; break; }
      case 1: { int v = ++stamp; size_t k = s.draw(m.size() + 1); CT i; if(k == m.size()) { i = l->InsertAfter(T(v), (CT)-1); m.push_back({ v, i }); } else { auto it = at(k); i = l->InsertAfter(T(v), it->second); m.insert(std::next(it), { v, i }); mid = true; } reuse |= removed > 0; break; }
      case 2: { int v = ++stamp; size_t k = s.draw(m.size() + 1); CT i; T t(v); if(k == m.size()) { i = l->InsertBefore(t, (CT)-1); m.push_back({ v, i }); } else { auto it = at(k); i = l->InsertBefore(t, it->second); m.insert(it, { v, i }); mid = true; } reuse |= removed > 0; break; }
      case 3: { if(m.empty()) continue; auto it = at(s.draw(m.size())); T t(l->Remove(it->second)); CHECK(val(t) == it->first, "Remove returned %d expected %d", val(t), it->first); m.erase(it); ++removed; break; }
      case 4: { CT c = (CT)s.draw(60); l->SetCapacity(c); CHECK(l->Capacity() >= c, "capacity"); break; }
      case 5: l->Clear(); m.clear(); break;
      case 6: { if(s.chance(1, 5)) { L& self = *l; *l = self; break; } std::unique_ptr<L> n; if(s.boolean()) n.reset(new L(*l)); else { n.reset(new L()); junk(*n); *n = *l; } if(!m.empty()) l->Remove(m.front().second); l = std::move(n); break; }
      case 7: { std::unique_ptr<L> n(new L()); junk(*n); if(s.boolean()) *n = std::move(*l); else n.reset(new L(std::move(*l))); CHECK(l->Length() == 0 && !(l->begin() != l->end()), "moved-from list not empty"); auto h1 = l->Add(T(3)); CHECK(l->Length() == 1 && val((*l)[h1]) == 3 && val(*l->begin()) == 3, "moved-from list is unusable"); l = std::move(n); break; }
      }
      ++ops; peak = std::max(peak, m.size());
      CHECK((size_t)l->Length() == m.size() && (size_t)l->Capacity() >= m.size(), "Length");
      CHECK(l->Front() == (m.empty() ? (CT)-1 : m.front().second) && l->Back() == (m.empty() ? (CT)-1 : m.back().second), "Front/Back");
      { const auto& cl = *l; auto ci = cl.begin(); for(auto& e : m) { CHECK(ci != cl.end() && ci.cur == e.second && val(*ci) == e.first && &cl[e.second] == &(*l)[e.second] && &cl.GetItem(e.second) == &(*l)[e.second], "const iteration"); ++ci; } CHECK(ci == cl.end(), "const iteration does not end"); }
      auto it = l->begin(); for(auto& e : m) { CHECK(it.IsValid() && it.cur == e.second, "iteration order"); CHECK(val(*it) == e.first && val((*l)[e.second]) == e.first && val(*l->GetItemPtr(e.second)) == e.first, "handle no longer names its element"); ++it; } CHECK(!it.IsValid() && it == l->end(), "too long"); if(s.chance(1, 5)) { std::vector<decltype(it.cur)> ord; for(auto& e : m) ord.push_back(e.second); walk<false>(s, l->begin(), l->end(), ord.size(), [&](auto& i, size_t k) { CHECK(i.cur == ord[k] && i.operator->() == l->GetItemPtr(ord[k]) && !!i, "iterator walk at %zu", k); }); }
      CT r = l->Back(); for(auto e = m.rbegin(); e != m.rend(); ++e) { CHECK(r == e->second, "backward order"); l->Prev(r); } CHECK(r == (CT)-1, "backward end");
    }
    s.note("%d ops, peak %zu", ops, peak); s.nontrivial(ops >= 5 && peak >= 3); if(reuse) s.label("slot reuse"); if(mid) s.label("edit in the middle");
  }
  if constexpr(tracked<T>) CHECK(live == 0, "%ld elements never destroyed", live);
}
PROP(linkedarray, 1, pbt::LEAKCHECK, "history of >=5 operations reaching >=3 elements")
{
  switch(s.draw(4)) { case 0: larray<int, size_t, ARRAY_SIMPLE>(s); break; case 1: larray<int, uint16_t, ARRAY_SIMPLE>(s); break; case 2: larray<Reloc, uint32_t, ARRAY_CONSTRUCT>(s); break; case 3: larray<Safe, size_t, ARRAY_SAFE>(s); break; }
}
