// KD-tree over rectangles: every query must report exactly the intersecting items.
#include "tracked.h"
#include "bss-util/KDTree.h"
#include <set>
using namespace bss;
using namespace trk;

struct It { float r[4]; LLBase<It> l; KDNode<It>* node; bool in; int id; int hits; };
static const float* FR(It* i) { return i->r; }
static LLBase<It>& FL(It* i) { return i->l; }
static KDNode<It>*& FN(It* i) { return i->node; }
typedef KDTree<It, FR, FL, FN, StandardAllocator<KDNode<It>>> Tree;
static void hit(It* i) { ++i->hits; }
static void coords(pbt::Src& s, int kind, float* r)
{
  for(int a = 0; a < 2; ++a)
  {
    float lo, w;
    switch(kind) { case 0: lo = (float)s.draw(8); w = (float)s.draw(3); break; case 1: lo = (float)((int)s.draw(2001) - 1000); w = (float)s.draw(s.boolean() ? 10 : 500); break; case 2: lo = (float)((int)s.draw(64)) * 0.1f; w = s.boolean() ? 0.f : (float)s.draw(20) * 0.1f; break; default: lo = (float)((int)s.draw(100000) - 50000) / 7.f; w = (float)s.draw(1000) / 9.f; }
    r[a] = lo; r[a + 2] = lo + w;
  }
}
static size_t shape(KDNode<It>* n, KDNode<It>* parent)
{ // counts of the published node structure
  if(!n) return 0; CHECK(n->parent == parent, "parent link"); size_t c = shape(n->left, n) + shape(n->right, n); for(It* i = n->items; i; i = i->l.next) { ++c; CHECK(i->node == n, "item does not know its node"); } CHECK(n->num == c, "node counts %u items, holds %zu", n->num, c); return c;
}
static void structure(Tree& t, size_t live)
{ CHECK(shape(t.GetRoot(), 0) == live, "tree holds the wrong number of items"); // item lists are consistent and every item is reachable exactly once
  size_t n = 0; t.TraverseAll([&](It* i) { It* pv = 0; for(; i; i = i->l.next) { ++n; CHECK(i->in && i->node && i->l.prev == pv, "item list broken"); pv = i; CHECK(n <= live, "more items than inserted"); } }); CHECK(n == live, "TraverseAll finds %zu items of %zu", n, live);
}
PROP(kdtree, 1, pbt::LEAKCHECK, "history reaching >=5 items with >=1 non-trivial query result")
{
  std::unique_ptr<Tree> t(new Tree(s.boolean() ? 20 : (uint32_t)s.draw(120))); std::vector<std::unique_ptr<It>> items; int kind = (int)s.draw(4); size_t live = 0, peak = 0; bool partial = false, reb = false, solved = false, moved = false, pending = false; int id = 0; auto w = s.swarm(10);
  auto query = [&](float* q)
  {
    float rect[4] = { q[0], q[1], q[2], q[3] }; for(int mode = 0; mode < 2; ++mode) { for(auto& i : items) i->hits = 0; if(mode) t->TraverseAction(rect, [](It* i) { ++i->hits; }); else t->Traverse<hit>(rect); size_t c = 0;
      for(auto& i : items) { bool e = i->in && i->r[0] <= rect[2] && i->r[1] <= rect[3] && i->r[2] >= rect[0] && i->r[3] >= rect[1]; c += e; CHECK(i->hits == (e ? 1 : 0), "item %d [%g %g %g %g] reported %d times for query [%g %g %g %g], expected %d", i->id, i->r[0], i->r[1], i->r[2], i->r[3], i->hits, rect[0], rect[1], rect[2], rect[3], (int)e); } partial |= c > 0 && c < live; }
  };
  while(s.more(30))
  {
    switch(s.pick({ 12, 5, 6, 1, 1, 2, 1, 1 }))
    {
    case 0: case_insert: { if(items.size() > 150) break; items.emplace_back(new It()); It* i = items.back().get(); coords(s, kind, i->r); if(items.size() > 1 && s.chance(1, 4)) memcpy(i->r, items[s.draw(items.size() - 1)]->r, sizeof(i->r)); i->id = id++; i->in = true; t->Insert(i); ++live; s.note("insert %d [%g %g %g %g]", i->id, i->r[0], i->r[1], i->r[2], i->r[3]); break; }
    case 1: { if(!live) break; size_t k = s.draw(items.size()); It* i = items[k].get(); CHECK(i->in && i->node, "item lost its node"); s.note("remove %d", i->id); t->Remove(i); items.erase(items.begin() + k); --live; break; }
    case 2: { float q[4]; coords(s, kind, q); if(!items.empty() && s.boolean()) { It* i = items[s.draw(items.size())].get(); int e = (int)s.draw(3); for(int a = 0; a < 2; ++a) { if(e == 0) q[a] = q[a + 2] = i->r[a]; else if(e == 1) q[a] = q[a + 2] = i->r[a + 2]; } } s.note("query [%g %g %g %g]", q[0], q[1], q[2], q[3]); query(q); break; }
    case 3: if(t->GetRoot() && live) { s.note("rebalance"); t->Rebalance(t->GetRoot()); reb = true; } break;
    case 4: t->SetRBThreshold((uint32_t)s.draw(120)); break;
    case 5: { // bulk load through the root, then solve
      int n = (int)s.draw(12); for(int k = 0; k < n && items.size() < 150; ++k) { items.emplace_back(new It()); It* i = items.back().get(); coords(s, kind, i->r); if(items.size() > 1 && s.chance(1, 4)) memcpy(i->r, items[s.draw(items.size() - 1)]->r, sizeof(i->r)); i->id = id++; i->in = true; t->InsertRoot(i); ++live; s.note("insert root %d [%g %g %g %g]", i->id, i->r[0], i->r[1], i->r[2], i->r[3]); } t->Solve(); s.note("solve"); solved |= n > 2; break; }
    case 6: if(s.boolean()) { t->Clear(); items.clear(); live = 0; s.note("clear"); } break;
    case 7: { std::unique_ptr<Tree> n; if(s.boolean()) n.reset(new Tree(std::move(*t))); else { n.reset(new Tree()); static It extra; extra = It(); extra.in = true; n->Insert(&extra); *n = std::move(*t); } CHECK(!t->GetRoot(), "moved-from tree keeps nodes"); t = std::move(n); moved = true; break; }
    }
    peak = std::max(peak, live); structure(*t, live);
  }
  for(auto& i : items) { query(i->r); float c[4] = { i->r[0], i->r[1], i->r[0], i->r[1] }; query(c); float d[4] = { i->r[2], i->r[3], i->r[2], i->r[3] }; query(d); if(items.size() > 40) break; } float all[4] = { -1e9f, -1e9f, 1e9f, 1e9f }; query(all);
  while(!items.empty() && s.boolean()) { size_t k = s.draw(items.size()); t->Remove(items[k].get()); items.erase(items.begin() + k); --live; structure(*t, live); query(all); }
  s.nontrivial(peak >= 5 && partial); if(reb) s.label("explicit rebalance"); if(solved) s.label("bulk load"); if(moved) s.label("moved");
}
