// Balanced search trees against std::map / std::multiset, with structural invariants.
#include "tracked.h"
#include "bss-util/AVLTree.h"
#include "bss-util/AATree.h"
#include "bss-util/TRBtree.h"
#include <map>
#include <set>
#include <functional>
using namespace bss;
using namespace trk;

template<class N> static int avlheight(N* n, size_t& count)
{
  if(!n) return 0;
  ++count;
  int l = avlheight(n->_left, count), r = avlheight(n->_right, count);
  CHECK(l - r <= 1 && r - l <= 1, "subtree heights differ by %d", l - r);
  return 1 + std::max(l, r);
}
template<class K, class D, char(*CF)(const K&, const K&)> static void avl(pbt::Src& s)
{
  live = 0;
  {
    typedef AVLTree<K, D, CF> T;
    typedef typename internal::AVLTreeDataField<K, D>::Node Node;
    BlockPolicy<Node> policy(1 + s.draw(20));
    std::unique_ptr<T> t(new T(&policy)); std::map<int, int> m; int ops = 0; size_t peak = 0; int dom = (int)(2 + s.draw(s.boolean() ? 300 : 30)); int stamp = 0; bool removed2 = false, replaced = false;
    uint64_t sw = s.swarm(8); bool mono = s.chance(1, 6); int nextk = 0;
    while(s.more())
    {
      int k; do k = s.pick({ 14, 8, 3, 3, 3, 1, 1, 2 }); while(!((sw >> k) & 1));
      switch(k)
      {
      case 0: case 7: { int key = mono ? nextk++ : (int)s.draw(dom); int d = ++stamp; Node* n; bool rv = s.boolean();
        if constexpr(std::is_void_v<D>) n = t->Insert(K(key)); else { if constexpr(std::is_same_v<D, MoveOnly>) rv = true; if(rv) n = t->Insert(K(key), D(d)); else if constexpr(!std::is_same_v<D, MoveOnly>) { D dd(d); n = t->Insert(K(key), dd); } }
        CHECK((n != 0) == !m.count(key), "Insert(%d) returned %p, present %zu", key, (void*)n, m.count(key)); m.insert({ key, d }); s.note("insert %d", key); break; }
      case 1: { int key = (int)s.draw(dom); if(m.size() && s.chance(2, 3)) { auto it = m.lower_bound(key); if(it == m.end()) it = m.begin(); key = it->first; }
        bool r = t->Remove(K(key)); CHECK(r == (m.count(key) != 0), "Remove(%d) returned %d", key, r); if(r && m.size() > 2) removed2 = true; m.erase(key); s.note("remove %d", key); break; }
      case 2: { int key = (int)s.draw(dom); auto* p = t->GetRef(K(key)); auto it = m.find(key); CHECK((p != 0) == (it != m.end()), "GetRef(%d)", key); if(p) { if constexpr(std::is_void_v<D>) CHECK(val(*p) == key, "GetRef"); else CHECK(val(*p) == it->second, "GetRef(%d) gave %d expected %d", key, val(*p), it->second); } break; }
      case 3: { if constexpr(!std::is_same_v<D, MoveOnly>) { int key = (int)s.draw(dom); auto it = m.find(key); if constexpr(std::is_void_v<D>) { K g(t->Get(K(key), K(-5))); CHECK(val(g) == (it == m.end() ? -5 : key), "Get"); } else { D g(t->Get(K(key), D(-5))); CHECK(val(g) == (it == m.end() ? -5 : it->second), "Get(%d) gave %d", key, val(g)); } } break; }
      case 4: { int key = (int)s.draw(dom); auto* n = t->Near(K(key)); CHECK((n != 0) == !m.empty(), "Near on tree of %zu gave %p", m.size(), (void*)n); if(n) { int got; if constexpr(std::is_void_v<D>) got = val(n->_key); else got = val(n->_key.first); CHECK(m.count(got), "Near returned unknown key"); if(m.count(key)) CHECK(got == key, "Near(%d) gave %d though present", key, got); else { auto it = m.lower_bound(key); bool ok = (it != m.end() && it->first == got); if(it != m.begin()) ok |= std::prev(it)->first == got; CHECK(ok, "Near(%d) gave %d, not a neighbour", key, got); } } break; }
      case 5: { if(m.empty()) continue; int o = (int)s.draw(dom), nk = (int)s.draw(dom); auto it = m.lower_bound(o); if(it == m.end()) it = m.begin(); o = it->first; if(m.count(nk) && nk != o) continue; int d = it->second; CHECK(t->ReplaceKey(K(o), K(nk)), "ReplaceKey(%d,%d)", o, nk); m.erase(it); m[nk] = d; replaced = true; s.note("rekey %d to %d", o, nk); break; }
      case 6: { switch(s.draw(3)) { case 0: t->Clear(); m.clear(); break; case 1: { std::unique_ptr<T> n(new T(std::move(*t))); t = std::move(n); break; } case 2: { T n(&policy); if constexpr(std::is_void_v<D>) n.Insert(K(3)); else n.Insert(K(3), D(1)); n = std::move(*t); CHECK(!t->GetRoot(), "moved-from tree not empty"); *t = std::move(n); break; } } break; }
      }
      ++ops; peak = std::max(peak, m.size());
      size_t c = 0; avlheight(t->GetRoot(), c); CHECK(c == m.size(), "tree has %zu nodes expected %zu", c, m.size());
      std::vector<int> keys, vals, ek, ev; std::function<void(Node*)> walk = [&](Node* nd) { if(!nd) return; walk(nd->_left); auto& kd = nd->_key; if constexpr(std::is_void_v<D>) { keys.push_back(val(kd)); vals.push_back(0); } else { keys.push_back(val(kd.first)); vals.push_back(val(kd.second)); } walk(nd->_right); }; walk(t->GetRoot());
      for(auto& p : m) { ek.push_back(p.first); ev.push_back(std::is_void_v<D> ? 0 : p.second); }
      if(keys.size() > 1 && keys[0] > keys[1]) { std::reverse(keys.begin(), keys.end()); std::reverse(vals.begin(), vals.end()); }
      CHECK(keys == ek, "traversal %s expected %s", str(keys).c_str(), str(ek).c_str()); CHECK(vals == ev, "data %s expected %s", str(vals).c_str(), str(ev).c_str());
      long per = (tracked<K> ? 1 : 0); if constexpr(!std::is_void_v<D>) per += tracked<D> ? 1 : 0;
      if(per) CHECK(live == per * (long)m.size(), "%ld live objects, tree holds %zu", live, m.size());
    }
    s.nontrivial(ops >= 6 && peak >= 4); if(removed2) s.label("removal from a tree of >2"); if(replaced) s.label("key replaced"); if(peak > 60) s.label("tree of >60 nodes");
  }
  CHECK(live == 0, "%ld objects never destroyed", live);
}
PROP(avltree, 2, pbt::LEAKCHECK, "history of >=6 operations reaching >=4 nodes")
{
  switch(s.draw(5)) { case 0: avl<int, int, CompT<int>>(s); break; case 1: avl<int, void, CompT<int>>(s); break; case 2: avl<int, Reloc, CompTInv<int>>(s); break; case 3: avl<Safe, int, CompT<Safe>>(s); break; case 4: avl<int, MoveOnly, CompT<int>>(s); break; }
}

template<class N> static int aacheck(N* n, size_t& count, std::vector<int>& out)
{
  if(n->level == 0) return 0; // sentinel
  int l = aacheck(n->left, count, out); ++count; out.push_back(val(n->data)); int r = aacheck(n->right, count, out);
  CHECK(n->left->level == n->level - 1, "left child level %d under %d", n->left->level, n->level);
  CHECK(n->right->level == n->level || n->right->level == n->level - 1, "right child level %d under %d", n->right->level, n->level);
  CHECK(n->right->level == 0 || n->right->right->level < n->level, "double horizontal link at level %d", n->level);
  return 1 + std::max(l, r);
}
static std::vector<int> walked; template<class T> static void walk(T& v) { walked.push_back(val(v)); }
template<class T, char(*CF)(const T&, const T&), bool INV> static void aa(pbt::Src& s)
{
  live = 0;
  {
    BlockPolicy<AANODE<T>> policy(1 + s.draw(20));
    AATree<T, CF> t(&policy); std::multiset<int> m; int ops = 0; size_t peak = 0; int dom = (int)(2 + s.draw(s.boolean() ? 300 : 20)); bool dup = false, rem = false; bool mono = s.chance(1, 6); int nextk = 0;
    while(s.more())
    {
      switch(s.pick({ 12, 8, 3, 1 }))
      {
      case 0: { int k = mono ? nextk++ : (int)s.draw(dom); dup |= m.count(k) > 0; t.Insert(T(k)); m.insert(k); s.note("insert %d", k); break; }
      case 1: { int k = (int)s.draw(dom); if(m.size() && s.chance(2, 3)) { auto it = m.lower_bound(k); if(it == m.end()) it = m.begin(); k = *it; } bool r = t.Remove(T(k)); auto it = m.find(k); CHECK(r == (it != m.end()), "Remove(%d) returned %d", k, r); if(r) { m.erase(it); rem = true; } s.note("remove %d", k); break; }
      case 2: { int k = (int)s.draw(dom); auto* n = t.Get(T(k)); CHECK((n != 0) == (m.count(k) > 0), "Get(%d) gave %p", k, (void*)n); if(n) CHECK(val(n->data) == k, "Get(%d) gave %d", k, val(n->data)); break; }
      case 3: if(s.chance(1, 3)) { t.Clear(); m.clear(); s.note("clear"); } break;
      }
      ++ops; peak = std::max(peak, m.size());
      CHECK(t.IsEmpty() == m.empty() && (t.GetRoot() == 0) == m.empty(), "emptiness");
      size_t c = 0; std::vector<int> out, e(m.begin(), m.end()); if(t.GetRoot()) aacheck(t.GetRoot(), c, out); if(INV) std::reverse(e.begin(), e.end());
      CHECK(out == e, "in-order %s expected %s", str(out).c_str(), str(e).c_str()); walked.clear(); t.template Traverse<&walk<T>>(); CHECK(walked == e, "Traverse visited %s, expected %s", str(walked).c_str(), str(e).c_str());
      if(tracked<T>) CHECK(live == (long)m.size(), "%ld live objects, tree holds %zu", live, m.size());
    }
    s.nontrivial(ops >= 6 && peak >= 4); if(dup) s.label("duplicate keys"); if(rem) s.label("removal");
  }
  CHECK(live == 0, "%ld objects never destroyed", live);
}
PROP(aatree, 1.5, pbt::LEAKCHECK, "history of >=6 operations reaching >=4 nodes")
{
  switch(s.draw(3)) { case 0: aa<int, CompT<int>, false>(s); break; case 1: aa<int, CompTInv<int>, true>(s); break; case 2: aa<Reloc, CompT<Reloc>, false>(s); break; }
}

template<class T> static int rbcheck(const TRB_Node<T>* n, const TRB_Node<T>* root, const TRB_Node<T>* nil, bool redparent)
{
  if(n == nil) return 1;
  CHECK(n->color == 0 || n->color == 1, "colour %d inside the tree", n->color);
  CHECK(!(redparent && n->color == 1), "red node under red parent");
  CHECK(n == root ? n->parent == 0 : (n->parent && (n->parent->left == n || n->parent->right == n)), "parent link");
  int l = rbcheck(n->left, root, nil, n->color == 1), r = rbcheck(n->right, root, nil, n->color == 1);
  CHECK(l == r, "black heights %d and %d", l, r);
  return l + (n->color == 0);
}
template<class T, char(*CF)(const T&, const T&), bool INV> static void trb(pbt::Src& s)
{
  typedef TRBtree<T, CF> Tr; typedef TRB_Node<T> N;
  live = 0;
  {
    std::unique_ptr<Tr> t(new Tr()); std::multimap<int, N*> m; int ops = 0; size_t peak = 0; int dom = (int)(2 + s.draw(s.boolean() ? 300 : 20)); bool dup = false, rem = false, moved = false; bool mono = s.chance(1, 6); int nextk = 0;
    while(s.more())
    {
      switch(s.pick({ 12, 5, 5, 3, 4, 1, 1 }))
      {
      case 0: { int k = mono ? nextk++ : (int)s.draw(dom); dup |= m.count(k) > 0; N* n = t->Insert(T(k)); CHECK(n && val(n->value) == k, "Insert"); m.insert({ k, n }); s.note("insert %d", k); break; }
      case 1: { int k = (int)s.draw(dom); auto r = m.equal_range(k); bool b = t->Remove(T(k)); CHECK(b == (r.first != r.second), "Remove(%d) returned %d", k, b); s.note("remove key %d", k); if(b) { // some node with that key is gone: find which
          std::set<N*> alive; for(auto i = t->begin(); i.IsValid(); ++i) alive.insert(*i); auto it = r.first; while(it != r.second && alive.count(it->second)) ++it; CHECK(it != r.second, "Remove(%d) removed nothing with that key", k); m.erase(it); rem = true; } break; }
      case 2: { if(m.empty()) continue; auto it = m.begin(); std::advance(it, s.draw(m.size())); s.note("remove node with key %d", it->first); CHECK(t->Remove(it->second), "Remove(node)"); m.erase(it); rem = true; break; }
      case 3: { int k = (int)s.draw(dom); N* n = t->Get(T(k)); CHECK((n != 0) == (m.count(k) > 0), "Get(%d) gave %p", k, (void*)n); if(n) CHECK(val(n->value) == k, "Get"); break; }
      case 4: { if(m.empty()) continue; int k = (int)s.draw(dom); bool before = s.boolean(); N* n = t->GetNear(T(k), before); CHECK(n, "GetNear null"); int got = val(n->value), e; if(m.count(k)) e = k; else { auto up = m.upper_bound(k); bool haslow = up != m.begin(), hashigh = up != m.end(); int lo = haslow ? std::prev(up)->first : 0, hi = hashigh ? up->first : 0; bool wantlow = INV ? !before : before; e = wantlow ? (haslow ? lo : hi) : (hashigh ? hi : lo); } CHECK(got == e, "GetNear(%d,%d) gave %d expected %d", k, before, got, e); break; }
      case 5: t->Clear(); m.clear(); s.note("clear"); break;
      case 6: { if(s.boolean()) { std::unique_ptr<Tr> n(new Tr(std::move(*t))); CHECK(!t->Front() && !t->Back(), "moved-from tree not empty"); t->Insert(T(5)); CHECK(t->Get(T(5)), "moved-from tree unusable"); t = std::move(n); } else { Tr n; n.Insert(T(3)); n = std::move(*t); t->Insert(T(5)); *t = std::move(n); } moved = true; s.note("move"); break; }
      }
      ++ops; peak = std::max(peak, m.size());
      { const auto& ct = *t; auto ci = ct.begin(); for(auto i = t->begin(); i.IsValid(); ++i, ++ci) CHECK(ci != ct.end() && *ci == *i, "const iteration"); CHECK(ci == ct.end() && !ci.IsValid() && ct.GetRoot() == t->GetRoot(), "const iteration does not end"); }
      std::vector<int> out, e; std::set<N*> seen; N* prev = 0; for(auto i = t->begin(); i.IsValid(); ++i) { N* n = *i; CHECK(n->prev == prev, "prev link"); prev = n; out.push_back(val(n->value)); seen.insert(n); } CHECK(t->Back() == prev, "Back"); CHECK(t->Front() == (out.empty() ? 0 : *t->begin()), "Front");
      for(auto& p : m) { e.push_back(p.first); CHECK(seen.count(p.second), "node with key %d missing from iteration", p.first); } if(INV) std::reverse(e.begin(), e.end());
      CHECK(out == e, "iteration %s expected %s", str(out).c_str(), str(e).c_str());
      for(auto& p : m) CHECK(Tr::Validate(p.second), "Validate");
      CHECK(t->DEBUGVERIFY() > 0, "self check reports a broken tree");
      const N* root = t->GetRoot(); if(!m.empty()) { const N* nil = root; while(nil->left != nil) nil = nil->left; rbcheck(root, root, nil, false); CHECK(root->color == 0, "red root"); }
      std::set<int> distinct; for(auto& p : m) distinct.insert(p.first); for(int k : distinct) { N* n = t->Get(T(k)); CHECK(n && val(n->value) == k, "Get(%d) fails", k); }
    }
    s.nontrivial(ops >= 6 && peak >= 4); if(dup) s.label("duplicate keys"); if(rem) s.label("removal"); if(moved) s.label("move");
  }
  if(tracked<T>) CHECK(live == 0, "%ld objects never destroyed", live);
}
PROP(trbtree, 2, pbt::LEAKCHECK, "history of >=6 operations reaching >=4 nodes")
{
  switch(s.draw(3)) { case 0: trb<int, CompT<int>, false>(s); break; case 1: trb<int, CompTInv<int>, true>(s); break; case 2: trb<Reloc, CompT<Reloc>, false>(s); break; }
}
