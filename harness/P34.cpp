// Containers with an allocation policy of their own: every block is asked from and returned to the policy the container was given.
#include "tracked.h"
#include "bss-util/Alloc.h"
#include "bss-util/Array.h"
#include "bss-util/DynArray.h"
#include "bss-util/ArrayCircular.h"
#include "bss-util/ArraySort.h"
#include "bss-util/BinaryHeap.h"
#include "bss-util/PriorityQueue.h"
#include "bss-util/CompactArray.h"
#include "bss-util/DisjointSet.h"
#include "bss-util/Stack.h"
#include "bss-util/Queue.h"
#include "bss-util/Hash.h"
#include "bss-util/LinkedList.h"
#include "bss-util/LinkedArray.h"
#include "bss-util/AVLTree.h"
#include "bss-util/AATree.h"
#include "bss-util/TRBtree.h"
#include "bss-util/KDTree.h"
#include "bss-util/Graph.h"
#include "bss-util/LocklessQueue.h"
#include <map>
#include <functional>
using namespace bss;
using namespace trk;

static long defaultuse;
// A policy that knows every block it has handed out and how many elements were asked for.
template<typename T> struct Pol
{
  struct B { size_t n; }; std::map<void*, B> blocks; size_t total = 0; bool isdefault = true;
  Pol() {}
  explicit Pol(bool) : isdefault(false) {}
  T* allocate(size_t cnt, T* p = nullptr, size_t old = 0) noexcept
  {
    if(isdefault) ++defaultuse;
    ++total; T* r = (T*)malloc(cnt * sizeof(T) + !cnt);
    if(p)
    {
      auto it = blocks.find(p); CHECK(it != blocks.end(), "a block is reallocated by a policy that never handed it out");
      CHECK(it->second.n == old, "a block of %zu elements is reallocated as one of %zu", it->second.n, old);
      memcpy((void*)r, (void*)p, std::min(old, cnt) * sizeof(T)); free((void*)p); blocks.erase(it);
    }
    blocks[r] = B{ cnt }; return r;
  }
  void deallocate(T* p, size_t sz = 0) noexcept
  {
    auto it = blocks.find(p); CHECK(it != blocks.end(), "a block is freed by a policy that never handed it out");
    CHECK(!sz || it->second.n == sz, "a block of %zu elements is freed as one of %zu", it->second.n, sz);
    free((void*)p); blocks.erase(it);
  }
};
template<typename T> using PA = PolymorphicAllocator<T, Pol>;

typedef std::vector<int> V;
// A: C (container), E (element type of the policy), COPY, make, add, remove, clear, get
template<class A> static void drive(pbt::Src& s, const char* what)
{
  typedef typename A::C C; typedef Pol<typename A::E> P;
  defaultuse = 0; live = 0;
  {
    P pol[2] = { P(false), P(false) };
    {
      std::unique_ptr<C> c[3]; V m[3]; int ops = 0, xfer = 0; bool reuse = false; int moved[3] = { 0, 0, 0 }; size_t peak = 0; int stamp = 0;
      auto ensure = [&](int i) { if(!c[i]) { c[i].reset(A::make(&pol[s.draw(2)], s)); m[i].clear(); moved[i] = 0; } };
      while(s.more())
      {
        int i = (int)s.draw(3), j = (int)s.draw(3); ensure(i);
        switch(s.pick({ 12, 5, 1, 3, 3, 3, 3, 1, 1 }))
        {
        case 0: { int n = 1 + (int)s.draw(s.chance(1, 6) ? 30 : 3); while(n--) { int v = ++stamp; A::add(*c[i], v); m[i].push_back(v); } reuse |= moved[i]; s.note("add to %d", i); break; }
        case 1: { if(m[i].empty()) continue; V& q = m[i]; size_t k = s.draw(q.size()); int r = A::remove(*c[i], q[k]); auto it = std::find(q.begin(), q.end(), r); CHECK(it != q.end(), "%s: removed %d, which it does not hold", what, r); q.erase(it); s.note("remove %d from %d", r, i); break; }
        case 2: A::clear(*c[i]); m[i].clear(); s.note("clear %d", i); break;
        case 3: if constexpr(A::COPY) { if(i == j) continue; c[j].reset(new C(*c[i])); m[j] = m[i]; moved[j] = 0; ++xfer; s.note("copy-construct %d from %d", j, i); } else continue; break;
        case 4: if constexpr(A::COPY && A::ASSIGN) { ensure(j); C& src = *c[i]; *c[j] = src; m[j] = m[i]; moved[j] = 0; ++xfer; s.note("%d = %d", j, i); } else continue; break;
        case 5: if constexpr(A::MOVE) { if(i == j) continue; c[j].reset(new C(std::move(*c[i]))); m[j] = m[i]; m[i].clear(); moved[j] = 0; moved[i] = 1; ++xfer; if(!A::REUSE) c[i].reset(); s.note("move-construct %d from %d", j, i); break; } else continue;
        case 6: if constexpr(A::ASSIGN && A::MOVE) { if(i == j) continue; ensure(j); *c[j] = std::move(*c[i]); m[j] = m[i]; m[i].clear(); moved[j] = 0; moved[i] = 1; ++xfer; if(!A::REUSE) c[i].reset(); s.note("%d = move(%d)", j, i); } else continue; break;
        case 7: c[i].reset(); m[i].clear(); s.note("destroy %d", i); break;
        case 8: A::extra(*c[i], s); break;
        }
        ++ops;
        for(int k = 0; k < 3; ++k) if(c[k])
        {
          V g = A::get(*c[k]), e = m[k]; std::sort(g.begin(), g.end()); std::sort(e.begin(), e.end()); peak = std::max(peak, e.size());
          CHECK(g == e, "%s: container %d holds %zu elements, %zu expected, or other ones", what, k, g.size(), e.size());
        }
        if constexpr(A::TRACK) { long t = 0; for(auto& q : m) t += q.size(); CHECK(live == t, "%s: %ld live elements, the containers hold %ld", what, live, t); }
        CHECK(!defaultuse, "%s: used the default policy instead of the one it was given", what);
      }
      s.nontrivial(ops >= 4 && (xfer >= 1 || !A::MOVE) && peak >= 2); s.label(what); if(reuse) s.label("moved-from container used again");
    }
    for(auto& p : pol) CHECK(p.blocks.empty(), "%s: %zu blocks were never returned to their policy", what, p.blocks.size());
    CHECK(!defaultuse, "%s: used the default policy instead of the one it was given", what);
  }
  CHECK(live == 0, "%s: %ld elements never destroyed", what, live);
}
struct Base { static constexpr bool COPY = true, ASSIGN = true, MOVE = true, REUSE = true, TRACK = false; template<class C> static void extra(C&, pbt::Src&) {} };
template<class Cx, class Ex> struct Seq : Base // indexable containers with Add, Length, Remove(index)
{
  typedef Cx C; typedef Ex E; static constexpr bool TRACK = tracked<Ex>;
  static C* make(Pol<E>* p, pbt::Src& s) { return new C(s.draw(4), p); }
  static void add(C& c, int v) { c.Add(E(v)); }
  static int remove(C& c, int v) { for(size_t i = 0; i < (size_t)c.Length(); ++i) if(val(c[i]) == v) { c.Remove(i); break; } return v; }
  static void clear(C& c) { c.Clear(); }
  static V get(C& c) { V r; for(size_t i = 0; i < (size_t)c.Length(); ++i) r.push_back(val(c[i])); return r; }
};
template<class T, ARRAY_TYPE AT> struct Dyn : Seq<DynArray<T, size_t, AT, PA<T>>, T> { static void extra(DynArray<T, size_t, AT, PA<T>>& c, pbt::Src& s) { c.SetCapacity(c.Length() + s.draw(9)); } };
template<class T, ARRAY_TYPE AT> struct Arr : Seq<Array<T, size_t, AT, PA<T>>, T>
{
  typedef Array<T, size_t, AT, PA<T>> C;
  static C* make(Pol<T>* p, pbt::Src& s) { return new C((size_t)0, p); }
  static int remove(C& c, int v) { for(size_t i = 0; i < (size_t)c.Capacity(); ++i) if(val(c[i]) == v) { c.Remove(i); break; } return v; }
  static V get(C& c) { V r; for(size_t i = 0; i < (size_t)c.Capacity(); ++i) r.push_back(val(c[i])); return r; }
};
struct Srt : Base
{
  typedef ArraySort<int, CompT<int>, size_t, ARRAY_SIMPLE, PA<int>> C; typedef int E;
  static C* make(Pol<E>* p, pbt::Src& s) { return new C(s.draw(4), p); }
  static void add(C& c, int v) { c.Insert(v); }
  static int remove(C& c, int v) { c.Remove(c.Find(v)); return v; }
  static void clear(C& c) { c.Clear(); }
  static V get(C& c) { return V(c.begin(), c.end()); }
};
struct Cmp : Base
{
  typedef CompactArray<int, 2, size_t, PA<int>> C; typedef int E;
  static C* make(Pol<E>* p, pbt::Src& s) { return new C(p); }
  static void add(C& c, int v) { c.Add(v); }
  static int remove(C& c, int v) { c.Remove(std::find(c.begin(), c.end(), v) - c.begin()); return v; }
  static void clear(C& c) { c.Clear(); }
  static V get(C& c) { return V(c.begin(), c.end()); }
};
template<class T, ARRAY_TYPE AT> struct Que : Base
{
  typedef Queue<T, ptrdiff_t, AT, PA<T>> C; typedef T E; static constexpr bool TRACK = tracked<T>;
  static C* make(Pol<E>* p, pbt::Src& s) { return new C((ptrdiff_t)s.draw(4), p); }
  static void add(C& c, int v) { c.Push(T(v)); }
  static int remove(C& c, int) { T t(c.Pop()); return val(t); }
  static void clear(C& c) { c.Clear(); }
  static V get(C& c) { V r; C t(c); while(!t.Empty()) { T x(t.Pop()); r.push_back(val(x)); } return r; }
};
template<class T, ARRAY_TYPE AT> struct Stk : Base
{
  typedef Stack<T, size_t, AT, PA<T>> C; typedef T E; static constexpr bool TRACK = tracked<T>;
  static C* make(Pol<E>* p, pbt::Src& s) { return new C(s.draw(4), p); }
  static void add(C& c, int v) { c.Push(T(v)); }
  static int remove(C& c, int) { T t(c.Pop()); return val(t); }
  static void clear(C& c) { c.Clear(); }
  static V get(C& c) { V r; C t(c); while(t.Length()) { T x(t.Pop()); r.push_back(val(x)); } return r; }
};
struct Heap : Base
{
  typedef BinaryHeap<int, size_t, CompT<int>, ARRAY_SIMPLE, PA<int>> C; typedef int E;
  static C* make(Pol<E>* p, pbt::Src& s) { return new C(p); }
  static void add(C& c, int v) { c.Insert(v); }
  static int remove(C& c, int) { return c.Pop(); }
  static void clear(C& c) { c.Clear(); }
  static V get(C& c) { return V(c.begin(), c.end()); }
};
struct PrQ : Base
{
  typedef std::pair<int, int> E; typedef PriorityQueue<int, int, CompT<int>, size_t, ARRAY_SIMPLE, PA<E>> C;
  static C* make(Pol<E>* p, pbt::Src& s) { return new C(p); }
  static void add(C& c, int v) { c.Push(v, v * 2); }
  static int remove(C& c, int) { E e = c.Pop(); CHECK(e.second == e.first * 2, "pair"); return e.first; }
  static void clear(C& c) { c.Clear(); }
  static V get(C& c) { V r; for(size_t i = 0; i < c.Length(); ++i) r.push_back(c.Get(i).first); return r; }
};
template<ARRAY_TYPE AT, class D> struct Hsh : Base
{
  typedef Hash<int, D, AT, &KH_AUTO_HASH<int, false>, &KH_AUTO_EQUAL<int, false>, PA<char>> C; typedef char E; static constexpr bool TRACK = tracked<D>;
  static C* make(Pol<E>* p, pbt::Src& s) { return new C((khint_t)s.draw(20), p); }
  static void add(C& c, int v) { c.Insert(v, D(v)); }
  static int remove(C& c, int v) { CHECK(c.Remove(v), "Remove"); return v; }
  static void clear(C& c) { c.Clear(); }
  static V get(C& c) { V r; for(auto [k, d] : c) { CHECK(val(d) == k, "value"); r.push_back(k); } return r; }
  static void extra(C& c, pbt::Src& s) { c.SetCapacity((khint_t)s.draw(60)); }
};
template<class T, bool LAST, bool SIZE> struct Lst : Base
{
  typedef LLNode<T> E; typedef LinkedList<T, PA<E>, LAST, SIZE> C; static constexpr bool TRACK = tracked<T>;
  static C* make(Pol<E>* p, pbt::Src& s) { return new C(p); }
  static void add(C& c, int v) { c.Add(T(v)); }
  static int remove(C& c, int v) { auto* n = c.Front(); while(val(n->item) != v) n = n->next; c.Remove(n); return v; }
  static void clear(C& c) { c.Clear(); }
  static V get(C& c) { V r; for(auto& e : c) r.push_back(val(e)); if constexpr(SIZE) CHECK(c.Length() == r.size(), "length"); return r; }
};
struct LAr : Base
{
  typedef internal::LINKEDNODE<int, size_t> E; typedef LinkedArray<int, size_t, ARRAY_SIMPLE, PA<E>> C;
  static C* make(Pol<E>* p, pbt::Src& s) { return new C(1 + s.draw(4), p); }
  static void add(C& c, int v) { c.Add(v); }
  static int remove(C& c, int v) { for(auto i = c.begin(); i != c.end(); ++i) if(*i == v) { c.Remove(i.cur); return v; } return -1; }
  static void clear(C& c) { c.Clear(); }
  static V get(C& c) { V r; for(auto& e : c) r.push_back(e); return r; }
};
struct Avl : Base
{
  static constexpr bool COPY = false;
  typedef internal::AVLTreeDataField<int, int>::Node E; typedef AVLTree<int, int, CompT<int>, PA<E>> C;
  static C* make(Pol<E>* p, pbt::Src& s) { return new C(p); }
  static void add(C& c, int v) { c.Insert(v, v); }
  static int remove(C& c, int v) { CHECK(c.Remove(v), "Remove"); return v; }
  static void clear(C& c) { c.Clear(); }
  static V get(C& c) { V r; std::function<void(std::pair<int, int>&)> f = [&](auto& n) { r.push_back(n.first); }; c.Traverse(f); return r; }
};
struct AaT : Base
{
  static constexpr bool COPY = false, MOVE = false;
  typedef AANODE<int> E; typedef AATree<int, CompT<int>, PA<E>> C;
  static C* make(Pol<E>* p, pbt::Src& s) { return new C(p); }
  static void add(C& c, int v) { c.Insert(v); }
  static int remove(C& c, int v) { CHECK(c.Remove(v), "Remove"); return v; }
  static void clear(C& c) { c.Clear(); }
  static void walk(AANODE<int>* n, V& r) { if(n->level) { walk(n->left, r); r.push_back(n->data); walk(n->right, r); } }
  static V get(C& c) { V r; if(c.GetRoot()) walk(c.GetRoot(), r); return r; }
};
struct Trb : Base
{
  static constexpr bool COPY = false;
  typedef TRB_Node<int> E; typedef TRBtree<int, CompT<int>, PA<E>> C;
  static C* make(Pol<E>* p, pbt::Src& s) { return new C(p); }
  static void add(C& c, int v) { c.Insert(v); }
  static int remove(C& c, int v) { CHECK(c.Remove(v), "Remove"); return v; }
  static void clear(C& c) { c.Clear(); }
  static V get(C& c) { V r; for(auto i = c.begin(); i.IsValid(); ++i) r.push_back(i->value); return r; }
};
struct PrH : Base
{
  typedef std::pair<size_t, int> E; typedef PriorityHeap<int, size_t, CompT<int>, ARRAY_SIMPLE, PA<E>> C;
  static C* make(Pol<E>* p, pbt::Src& s) { return new C(p); }
  static void add(C& c, int v) { c.Push(v); }
  static int remove(C& c, int) { return c.Pop(); }
  static void clear(C& c) { c.Clear(); }
  static V get(C& c) { V r; C t(c); while(!t.Empty()) r.push_back(t.Pop()); return r; }
};
template<class Q> struct Lq : Base
{
  static constexpr bool COPY = false, REUSE = false, TRACK = false; typedef internal::LQ_QNode<int> E; typedef Q C;
  static C* make(Pol<E>* p, pbt::Src& s) { return new C(p); }
  static void add(C& c, int v) { c.Push(v); }
  static int remove(C& c, int) { int r = -1; CHECK(c.Pop(r), "Pop"); return r; }
  static void clear(C& c) { int r; while(c.Pop(r)); }
  static V get(C& c) { V r; size_t n = c.Length(); int v; for(size_t i = 0; i < n; ++i) { CHECK(c.Pop(v), "Pop"); r.push_back(v); c.Push(v); } return r; }
};
struct Gr : Base // the elements are the edges of a graph of three nodes
{
  static constexpr bool COPY = false, REUSE = false; typedef Edge<int, uint16_t> E; typedef Graph<int, void, uint16_t, PA<E>> C;
  static C* make(Pol<E>* p, pbt::Src& s) { C* g = new C(p); for(int i = 0; i < 3; ++i) g->AddNode(); return g; }
  static void add(C& c, int v) { c.AddEdge(v % 3, v / 3 % 3, &v); }
  static int remove(C& c, int v) { for(int i = 0; i < 3; ++i) for(E* e = c.GetNode(i)->to; e; e = e->next) if(e->data == v) { c.RemoveEdge(e); return v; } return -1; }
  static void clear(C& c) { for(int i = 0; i < 3; ++i) while(E* e = c.GetNode(i)->to) c.RemoveEdge(e); }
  static V get(C& c) { V r; for(int i = 0; i < 3; ++i) for(E* e = c.GetNode(i)->to; e; e = e->next) r.push_back(e->data); return r; }
};
struct KI { float r[4]; LLBase<KI> l; KDNode<KI>* node; int id; };
static const float* KR(KI* i) { return i->r; }
static LLBase<KI>& KL(KI* i) { return i->l; }
static KDNode<KI>*& KN(KI* i) { return i->node; }
struct Kd : Base
{
  static constexpr bool COPY = false; typedef KDNode<KI> E; typedef KDTree<KI, KR, KL, KN, PA<E>> C; static std::map<int, KI> items;
  static C* make(Pol<E>* p, pbt::Src& s) { return new C((uint32_t)(2 + s.draw(20)), p); }
  static void add(C& c, int v) { KI& k = items[v]; memset(&k, 0, sizeof(KI)); k.id = v; float x = (float)(v * 37 % 101), y = (float)(v * 53 % 89); k.r[0] = x; k.r[1] = y; k.r[2] = x + v % 7; k.r[3] = y + v % 5; c.Insert(&k); }
  static int remove(C& c, int v) { c.Remove(&items[v]); return v; }
  static void clear(C& c) { c.Clear(); }
  static V get(C& c) { V r; float w[4] = { -1, -1, 1000, 1000 }; c.TraverseAction(w, [&](KI* i) { r.push_back(i->id); }); return r; }
  static void extra(C& c, pbt::Src& s) { c.Solve(); }
};
std::map<int, KI> Kd::items;
PROP(arrays, 1, pbt::LEAKCHECK, "history of >=4 operations on containers of two policies with a copy or move between them and >=2 elements")
{
  switch(s.draw(11))
  {
  case 0: drive<Dyn<int, ARRAY_SIMPLE>>(s, "DynArray simple"); break;
  case 1: drive<Dyn<Safe, ARRAY_SAFE>>(s, "DynArray safe"); break;
  case 2: drive<Dyn<Reloc, ARRAY_CONSTRUCT>>(s, "DynArray construct"); break;
  case 3: drive<Arr<int, ARRAY_SIMPLE>>(s, "Array simple"); break;
  case 4: drive<Arr<Safe, ARRAY_SAFE>>(s, "Array safe"); break;
  case 5: drive<Srt>(s, "ArraySort"); break;
  case 6: drive<Cmp>(s, "CompactArray"); break;
  case 7: drive<Que<int, ARRAY_SIMPLE>>(s, "Queue simple"); break;
  case 8: drive<Que<Safe, ARRAY_SAFE>>(s, "Queue safe"); break;
  case 9: drive<Stk<int, ARRAY_SIMPLE>>(s, "Stack simple"); break;
  case 10: drive<Stk<Safe, ARRAY_SAFE>>(s, "Stack safe"); break;
  }
}
PROP(heaps_tables, 1, pbt::LEAKCHECK, "history of >=4 operations on containers of two policies with a copy or move between them and >=2 elements")
{
  switch(s.draw(6))
  {
  case 5: drive<PrH>(s, "PriorityHeap"); break;
  case 0: drive<Heap>(s, "BinaryHeap"); break;
  case 1: drive<PrQ>(s, "PriorityQueue"); break;
  case 2: drive<Hsh<ARRAY_SIMPLE, int>>(s, "Hash simple"); break;
  case 3: drive<Hsh<ARRAY_SAFE, Safe>>(s, "Hash safe"); break;
  case 4: drive<LAr>(s, "LinkedArray"); break;
  }
}
PROP(nodes, 1, pbt::LEAKCHECK, "history of >=4 operations on containers of two policies with a copy or move between them and >=2 elements")
{
  switch(s.draw(11))
  {
  case 7: drive<Lq<LocklessQueue<int, size_t, PA<internal::LQ_QNode<int>>>>>(s, "LocklessQueue"); break;
  case 8: drive<Lq<MicroLockQueue<int, size_t, PA<internal::LQ_QNode<int>>>>>(s, "MicroLockQueue"); break;
  case 9: drive<Gr>(s, "Graph"); break;
  case 10: Kd::items.clear(); drive<Kd>(s, "KDTree"); break;
  case 0: drive<Lst<int, false, false>>(s, "LinkedList"); break;
  case 1: drive<Lst<int, true, true>>(s, "LinkedList last size"); break;
  case 2: drive<Lst<Safe, true, true>>(s, "LinkedList safe"); break;
  case 3: drive<Avl>(s, "AVLTree"); break;
  case 4: drive<AaT>(s, "AATree"); break;
  case 5: drive<Trb>(s, "TRBtree"); break;
  case 6: drive<Lst<Safe, false, true>>(s, "LinkedList safe size"); break;
  }
}
