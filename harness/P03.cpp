// Sorted arrays, associative sorted arrays and binary searches against std:: reference algorithms.
// RELEASE: 0.4
#include "tracked.h"
#include "bss-util/ArraySort.h"
#include "bss-util/Map.h"
#include "bss-util/algo.h"
#include <map>
using namespace bss;
using namespace trk;
typedef std::vector<int> M;

template<class T, char(*CF)(const T&, const T&), ARRAY_TYPE AT, bool INV> static void sorted(pbt::Src& s)
{
  typedef ArraySort<T, CF, size_t, AT> A;
  live = 0;
  {
    auto lt = [](int a, int b) { return INV ? b < a : a < b; };
    std::unique_ptr<A> a(new A((size_t)s.draw(4))); M m; int ops = 0; size_t peak = 0; bool dup = false, moved = false;
    int dom = (int)(3 + s.draw(40)); uint64_t sw = s.swarm(8);
    while(s.more())
    {
      int k; do k = s.pick({ 12, 5, 4, 1, 1, 1, 1, 1 }); while(!((sw >> k) & 1));
      switch(k)
      {
      case 0: { int v = (int)s.draw(dom); dup |= std::count(m.begin(), m.end(), v) > 0; size_t r; if(s.boolean()) { T t(v); r = a->Insert(t); } else r = a->Insert(T(v)); CHECK(r <= m.size() && val((*a)[r]) == v, "Insert(%d) returned index %zu", v, r); m.insert(std::upper_bound(m.begin(), m.end(), v, lt), v); s.note("insert %d", v); break; }
      case 1: { size_t i = s.draw(m.size() + 2); bool r = a->Remove(i); CHECK(r == (i < m.size()), "Remove(%zu) of %zu returned %d", i, m.size(), r); if(r) m.erase(m.begin() + i); s.note("remove #%zu", i); break; }
      case 2: { if(m.empty()) continue; size_t i = s.draw(m.size()); int v = (int)s.draw(dom); T t(v); size_t r = a->ReplaceData(i, t); m.erase(m.begin() + i); m.insert(std::upper_bound(m.begin(), m.end(), v, lt), v); CHECK(r < m.size() && val((*a)[r]) == v, "ReplaceData(%zu,%d) returned %zu", i, v, r); moved |= r != i; s.note("replace #%zu by %d", i, v); break; }
      case 3: a->Clear(); m.clear(); break;
      case 4: { size_t n = s.draw(m.size() + 2); a->Discard(n); if(n > m.size()) m.clear(); else m.resize(m.size() - n); s.note("discard %zu", n); break; }
      case 5: { std::unique_ptr<A> n(new A(*a)); a = std::move(n); break; }
      case 6: { std::unique_ptr<A> n(new A(std::move(*a))); CHECK(a->Length() == 0 && a->Empty(), "moved-from array not empty"); { A& self = *n; *n = self; } A z; size_t c = s.draw(6), c2 = s.draw(6); for(size_t i = 0; i < c; ++i) z.Insert(T((int)s.draw(dom))); z = *n; for(size_t i = 0; i < c2; ++i) a->Insert(T((int)s.draw(dom))); *a = std::move(z); break; }
      case 7: { a->SetCapacity(s.draw(m.size() * 2 + 4)); if(s.boolean()) { A z; size_t c = s.draw(6); for(size_t i = 0; i < c; ++i) z.Insert(T((int)s.draw(dom))); z = Slice<const T, size_t>(a->begin(), a->Length()); *a = std::move(z); } break; }
      }
      ++ops; peak = std::max(peak, m.size());
      CHECK(a->Length() == m.size() && a->Empty() == m.empty() && a->Capacity() >= m.size(), "length");
      for(size_t i = 0; i < m.size(); ++i) CHECK(val((*a)[i]) == m[i], "element %zu is %d expected %d", i, val((*a)[i]), m[i]);
      if(!m.empty()) CHECK(val(a->Front()) == m.front() && val(a->Back()) == m.back() && a->begin() + m.size() == a->end(), "front/back");
      { const A& c = *a; auto sl = c.GetSlice(); CHECK(c.end() - c.begin() == (ptrdiff_t)m.size() && c.begin() == a->begin() && sl.length == m.size() && (m.empty() || sl.start == c.begin()), "const range"); for(size_t i = 0; i < m.size(); ++i) CHECK(&c[i] == &(*a)[i] && &c[i] == c.begin() + i, "const element %zu", i); if(!m.empty()) CHECK(&c.Front() == c.begin() && &c.Back() == c.end() - 1, "const front/back"); }
      if constexpr(tracked<T>) CHECK(live == (long)m.size(), "%ld live, array holds %zu", live, m.size());
      int q = (int)s.draw(dom + 2) - 1; T t(q);
      size_t f = a->Find(t); bool has = std::binary_search(m.begin(), m.end(), q, lt);
      CHECK(has ? (f < m.size() && m[f] == q) : f == (size_t)-1, "Find(%d) returned %zd", q, (ssize_t)f);
      size_t nb = a->FindNear(t, true), na = a->FindNear(t, false);
      size_t eb = std::upper_bound(m.begin(), m.end(), q, lt) - m.begin() - 1, ea = std::lower_bound(m.begin(), m.end(), q, lt) - m.begin(); if(ea >= m.size()) ea = (size_t)-1;
      CHECK(nb == eb, "FindNear(%d,before) returned %zd expected %zd", q, (ssize_t)nb, (ssize_t)eb);
      CHECK(na == ea, "FindNear(%d,after) returned %zd expected %zd", q, (ssize_t)na, (ssize_t)ea);
    }
    s.nontrivial(ops >= 5 && peak >= 4); if(dup) s.label("duplicate keys"); if(moved) s.label("replace moved an element");
  }
  if constexpr(tracked<T>) CHECK(live == 0, "%ld elements never destroyed", live);
}
PROP(arraysort, 2, pbt::LEAKCHECK, "history of >=5 operations that reaches >=4 elements; every state is queried")
{
  switch(s.draw(4))
  {
  case 0: sorted<int, CompT<int>, ARRAY_SIMPLE, false>(s); break;
  case 1: sorted<int, CompTInv<int>, ARRAY_SIMPLE, true>(s); break;
  case 2: sorted<Reloc, CompT<Reloc>, ARRAY_CONSTRUCT, false>(s); break;
  case 3: sorted<Safe, CompT<Safe>, ARRAY_SAFE, false>(s); break;
  }
}

template<class Dt, ARRAY_TYPE AT, char(*CF)(const int&, const int&), bool INV> static void maptest(pbt::Src& s)
{
  typedef Map<int, Dt, CF, size_t, AT> A;
  live = 0;
  {
    auto lt = [](int a, int b) { return INV ? b < a : a < b; };
    std::unique_ptr<A> a(new A((size_t)s.draw(4))); std::map<int, int, bool(*)(int, int)> m(+[](int a, int b) { return INV ? b < a : a < b; });
    int ops = 0; size_t peak = 0; int dom = (int)(3 + s.draw(60)); uint64_t sw = s.swarm(9); int stamp = 0; bool miss = false;
    auto index = [&](int key) { return (size_t)std::distance(m.begin(), m.lower_bound(key)); };
    while(s.more())
    {
      int k; do k = s.pick({ 12, 5, 4, 1, 1, 2, 1, 2, 2 }); while(!((sw >> k) & 1));
      int key = (int)s.draw(dom), d = ++stamp;
      switch(k)
      {
      case 0: { if(m.count(key)) { pbt::Src& q = s; (void)q; continue; } size_t r; if(s.boolean()) { Dt t(d); r = a->Insert(key, t); } else r = a->Insert(key, Dt(d)); m[key] = d; CHECK(r == index(key), "Insert(%d) returned %zu expected %zu", key, r, index(key)); s.note("insert %d=%d", key, d); break; }
      case 1: { size_t e = m.count(key) ? index(key) : (size_t)-1; size_t r = a->Remove(key); CHECK(r == e, "Remove(%d) returned %zd expected %zd", key, (ssize_t)r, (ssize_t)e); m.erase(key); miss |= e == (size_t)-1; s.note("remove %d", key); break; }
      case 2: { Dt t(d); size_t r = a->Set(key, t); if(m.count(key)) { CHECK(r == index(key), "Set(%d) returned %zd", key, (ssize_t)r); m[key] = d; } s.note("set %d=%d", key, d); break; }
      case 3: a->Clear(); m.clear(); break;
      case 4: { size_t n = s.draw(m.size() + 1); a->Discard(n); for(size_t i = 0; i < n; ++i) m.erase(std::prev(m.end())); break; }
      case 5: { if(m.empty()) continue; size_t i = s.draw(m.size()); if(m.count(key)) continue; auto it = std::next(m.begin(), i); int od = it->second; m.erase(it); m[key] = od; size_t r = a->ReplaceKey(i, key); CHECK(r == index(key), "ReplaceKey returned %zu expected %zu", r, index(key)); s.note("rekey #%zu -> %d", i, key); break; }
      case 6: { std::unique_ptr<A> n(new A(*a)); A z(std::move(*n)); CHECK(n->Length() == 0, "moved-from map not empty"); *a = z; break; }
      case 7: { if(m.empty()) continue; size_t i = s.draw(m.size()); a->RemoveIndex(i); m.erase(std::next(m.begin(), i)); s.note("remove #%zu", i); break; }
      case 8: { if(m.empty()) continue; size_t i = s.draw(m.size()); auto it = std::next(m.begin(), i); int nk = s.boolean() || m.count(key) ? it->first : key; m.erase(it); m[nk] = d; Dt t(d); size_t r = s.boolean() ? a->Replace(i, nk, t) : a->Replace(i, nk, Dt(d)); CHECK(r == index(nk), "Replace returned %zu expected %zu", r, index(nk)); break; }
      }
      ++ops; peak = std::max(peak, m.size());
      CHECK(a->Length() == m.size(), "length %zu expected %zu", (size_t)a->Length(), m.size());
      size_t i = 0;
      for(auto& e : m)
      {
        CHECK(a->KeyIndex(i) == e.first && val(a->DataIndex(i)) == e.second && val((*a)(i)) == e.second && std::get<0>((*a)[i]) == e.first, "entry %zu is %d=%d expected %d=%d", i, a->KeyIndex(i), val(a->DataIndex(i)), e.first, e.second);
        CHECK(val(a->GetData(e.first)) == e.second, "GetData(%d)", e.first);
        ++i;
      }
      if(!m.empty()) CHECK(std::get<0>(a->Front()) == m.begin()->first && std::get<0>(a->Back()) == m.rbegin()->first, "front/back");
      { const A& c = *a; auto sl = c.GetSlice(); CHECK(c.end() - c.begin() == (ptrdiff_t)m.size() && a->end() - a->begin() == (ptrdiff_t)m.size() && c.begin() == a->begin() && sl.length == m.size() && (m.empty() || sl.start == c.begin()), "range"); for(size_t j = 0; j < m.size(); ++j) CHECK(&c[j] == &(*a)[j] && &c[j] == c.begin() + j && &c(j) == &(*a)(j), "const entry %zu", j); if(!m.empty()) CHECK(&c.Front() == c.begin() && &c.Back() == c.end() - 1 && &a->Front() == c.begin() && &a->Back() == c.end() - 1, "const front/back"); }
      if constexpr(tracked<Dt>) CHECK(live == (long)m.size(), "%ld live, map holds %zu", live, m.size());
      int q = (int)s.draw(dom + 2) - 1;
      CHECK(a->Get(q) == (m.count(q) ? index(q) : (size_t)-1), "Get(%d) returned %zd", q, (ssize_t)a->Get(q));
      size_t eb = (size_t)std::distance(m.begin(), m.upper_bound(q)) - 1, ea = index(q); if(ea >= m.size()) ea = (size_t)-1;
      CHECK(a->GetNear(q, true) == eb, "GetNear(%d,before) %zd expected %zd", q, (ssize_t)a->GetNear(q, true), (ssize_t)eb);
      CHECK(a->GetNear(q, false) == ea, "GetNear(%d,after) %zd expected %zd", q, (ssize_t)a->GetNear(q, false), (ssize_t)ea);
    }
    s.nontrivial(ops >= 5 && peak >= 4); if(miss) s.label("remove of absent key");
  }
  if constexpr(tracked<Dt>) CHECK(live == 0, "%ld elements never destroyed", live);
}
PROP(map, 2, pbt::LEAKCHECK, "map history of >=5 operations reaching >=4 entries; every state fully compared and queried")
{
  switch(s.draw(3)) { case 0: maptest<int, ARRAY_SIMPLE, CompT<int>, false>(s); break; case 1: maptest<int, ARRAY_SIMPLE, CompTInv<int>, true>(s); break; case 2: maptest<Safe, ARRAY_SAFE, CompT<int>, false>(s); break; }
}

template<class T, class C> static void bs(pbt::Src& s)
{
  std::vector<T> v; int dom = (int)(2 + s.draw(30));
  while(s.more() && v.size() < 120) v.push_back((T)s.draw(dom));
  std::sort(v.begin(), v.end());
  T q = (T)s.draw(dom + 2);
  C n = (C)v.size(); C f = (C)s.draw(v.size() + 1), l = (C)(f + s.draw(v.size() - f + 1));
  auto B = v.begin();
  C lb = (C)(std::lower_bound(B, v.end(), q) - B), ub = (C)(std::upper_bound(B, v.end(), q) - B);
  C a1 = BinarySearchAfter<T, C, CompT<T>>(v.data(), n, q), b1 = BinarySearchBefore<T, C, CompT<T>>(v.data(), n, q);
  CHECK(a1 == lb, "After %ld expected %ld", (long)a1, (long)lb);
  CHECK(b1 == (C)(ub - 1), "Before %ld expected %ld", (long)b1, (long)(ub - 1));
  C lb2 = (C)(std::lower_bound(B + f, B + l, q) - B), ub2 = (C)(std::upper_bound(B + f, B + l, q) - B);
  C a2 = BinarySearchAfter<T, C, CompT<T>>(v.data(), q, f, l), b2 = BinarySearchBefore<T, C, CompT<T>>(v.data(), q, f, l);
  CHECK(a2 == lb2, "ranged After %ld expected %ld", (long)a2, (long)lb2);
  CHECK(b2 == (C)(ub2 - 1), "ranged Before %ld expected %ld", (long)b2, (long)(ub2 - 1));
  C e = BinarySearchExact<T, T, C, CompT<T>>(v.data(), q, f, l);
  bool has = lb2 != ub2;
  CHECK(has ? (e >= f && e < l && v[e] == q) : e == (C)-1, "Exact returned %ld", (long)e);
  s.note("%zu values, query %d in [%ld,%ld)", v.size(), (int)q, (long)f, (long)l);
  s.nontrivial(v.size() >= 3 && l - f >= 2);
  if(has) s.label("present");
}
PROP(binarysearch, 1, 0, "sorted array of >=3 values, a sub-range of >=2, query inside or outside")
{
  switch(s.draw(4)) { case 0: bs<int, size_t>(s); break; case 1: bs<unsigned char, uint8_t>(s); break; case 2: bs<short, int>(s); break; case 3: bs<int, uint16_t>(s); break; }
}
// ------------------------------------------------------------------ comparison functions
template<class T> static T someval(pbt::Src& s) { if constexpr(std::is_floating_point<T>::value) { switch(s.draw(4)) { case 0: return (T)s.range(-3, 3); case 1: return (T)s.real(-1, 1); case 2: return (T)s.real(-1e30, 1e30); default: return s.boolean() ? std::numeric_limits<T>::infinity() : -(T)0; } } else { switch(s.draw(3)) { case 0: return (T)s.draw(4); case 1: return (T)s.bits64(); default: return (T)((s.boolean() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min()) ^ (T)s.draw(2)); } } }
template<class T> static void comp(pbt::Src& s)
{
  T a = someval<T>(s), b = s.chance(1, 3) ? a : someval<T>(s), c = someval<T>(s), d = s.chance(1, 3) ? c : someval<T>(s); auto sg = [](const T& x, const T& y) { return x < y ? -1 : y < x ? 1 : 0; }; int ab = sg(a, b), cd = sg(c, d); s.nontrivial(ab != 0);
  CHECK(CompT<T>(a, b) == ab && CompT<T>(b, a) == -ab && CompTInv<T>(a, b) == -ab && CompT_LT<T>(a, b) == (ab < 0 ? -1 : 0) && CompT_GT<T>(a, b) == (ab > 0) && CompT_EQ<T>(a, b) == (ab == 0) && CompT_NEQ<T>(a, b) == (ab != 0), "comparison of %g and %g", (double)a, (double)b);
  typedef std::pair<T, T> P; typedef std::tuple<T, T, T> Q; P p(a, c), q(b, d); Q x(a, c, a), y(b, d, b);
  CHECK((CompTFirst<T, T>(p, q)) == ab && (CompTSecond<T, T>(p, q)) == cd && (CompTBoth<T, T>(p, q)) == (ab ? ab : cd), "comparison of pairs"); CHECK((CompTBoth<T, T, &CompTInv<T>, &CompT<T>>(p, q)) == (ab ? -ab : cd) && (CompTSecond<T, T, &CompTInv<T>>(p, q)) == -cd && (CompTFirst<T, T, &CompTInv<T>>(p, q)) == -ab, "comparison of pairs with other orders");
  CHECK((CompTuple<Q>(x, y)) == ab && (CompTuple<Q, 1>(x, y)) == cd && (CompTuple<Q, 1, &CompTInv<T>>(x, y)) == -cd && (CompTuple<Q, 2>(x, y)) == ab, "comparison of tuples"); CHECK(SGNCOMPARE(a, b) == ab && (PRICOMPARE(a, b, 0) | PRICOMPARE(c, d, 0)) == (ab | cd), "comparison macros");
}
PROP(comparators, .3, 0, "different values")
{
  switch(s.draw(7)) { case 0: comp<int>(s); return; case 1: comp<uint64_t>(s); return; case 2: comp<int64_t>(s); return; case 3: comp<unsigned char>(s); return; case 4: comp<double>(s); return; case 5: comp<float>(s); return; }
  std::string a, b; while(s.more(4)) a += "aAbB_z\xe9\xff"[s.draw(8)]; if(s.chance(1, 3)) { b = a; for(auto& k : b) if(s.boolean()) k = (char)(isupper((unsigned char)k) ? tolower(k) : islower((unsigned char)k) ? toupper(k) : k); if(s.boolean()) b += "a"; } else while(s.more(4)) b += "aAbB_z\xe9\xff"[s.draw(8)];
  auto lex = [](const std::string& x, const std::string& y, bool fold) { for(size_t i = 0;; ++i) { int p = i < x.size() ? (unsigned char)x[i] : 0, q = i < y.size() ? (unsigned char)y[i] : 0; if(fold && p < 128) p = tolower(p); if(fold && q < 128) q = tolower(q); if(p != q) return p < q ? -1 : 1; if(!p) return 0; } };
  int e = lex(a, b, false), f = lex(a, b, true); const char *x = a.c_str(), *y = b.c_str(); s.note("\"%s\" and \"%s\"", x, y); s.nontrivial(e != 0); CHECK(CompStr<const char*>(x, y) == e && CompStrLT<const char*>(x, y) == (e < 0), "CompStr gives %d, expected %d", CompStr<const char*>(x, y), e); CHECK(CompIStr<const char*>(x, y) == f && CompIStrLT<const char*>(x, y) == (f < 0), "CompIStr gives %d, expected %d", CompIStr<const char*>(x, y), f);
  std::wstring u, v; for(unsigned char k : a) if(k < 128) u += (wchar_t)k; for(unsigned char k : b) if(k < 128) v += (wchar_t)k; std::string ua(u.begin(), u.end()), ub(v.begin(), v.end()); CHECK(CompStrW<const wchar_t*>(u.c_str(), v.c_str()) == lex(ua, ub, false) && CompIStrW<const wchar_t*>(u.c_str(), v.c_str()) == lex(ua, ub, true), "wide comparison");
}
