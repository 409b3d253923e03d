// Sequence containers against std::vector<int> models, with lifetime-tracked elements.
// RELEASE: 0.4
// ASSUME: no element reference into the container itself is passed to its own growing operation; sizes stay below the size type's limit
#include "tracked.h"
#include "bss-util/DynArray.h"
#include "bss-util/Array.h"
#include "bss-util/CompactArray.h"
#include "bss-util/Stack.h"
using namespace bss;
using namespace trk;
typedef std::vector<int> M;

template<class A> constexpr bool iscompact = false;
template<class T, int I, class C, class AL> constexpr bool iscompact<CompactArray<T, I, C, AL>> = true;
template<class A> constexpr bool isfixed = false;
template<class T, class C, ARRAY_TYPE AT, class AL> constexpr bool isfixed<Array<T, C, AT, AL>> = true;
template<class A> static size_t len(const A& a);
template<class T, class C, ARRAY_TYPE AT, class AL> static size_t len(const DynArray<T, C, AT, AL>& a) { return (size_t)a.Length(); }
template<class T, class C, ARRAY_TYPE AT, class AL> static size_t len(const Array<T, C, AT, AL>& a) { return (size_t)a.Capacity(); }
template<class T, int I, class C, class AL> static size_t len(const CompactArray<T, I, C, AL>& a) { return (size_t)a.Length(); }

template<class A, class T> static void same(const A& ca, const M& m, const char* who, const char* op)
{
  A& a = const_cast<A&>(ca);
  CHECK(len(ca) == m.size(), "%s after %s: length %zu, expected %zu", who, op, len(ca), m.size());
  CHECK(ca.Empty() == m.empty(), "%s after %s", who, op);
  CHECK((size_t)ca.Capacity() >= m.size(), "%s after %s: capacity", who, op);
  CHECK((size_t)(ca.end() - ca.begin()) == m.size(), "%s after %s: iterator distance", who, op);
  const T* raw = ca;
  for(size_t i = 0; i < m.size(); ++i)
  {
    int g = val(ca.begin()[i]);
    CHECK(g == m[i], "%s after %s: element %zu is %d, expected %d", who, op, i, g, m[i]);
    CHECK(&a.begin()[i] == &raw[i], "%s after %s: iterator and pointer disagree", who, op);
  }
  CHECK(a.begin() == ca.begin() && a.end() == ca.end() && (T*)a == raw, "%s after %s: const and mutable iterators disagree", who, op);
  if(!m.empty())
  {
    CHECK(val(ca.Front()) == m.front() && val(ca.Back()) == m.back() && val(a.Front()) == m.front() && val(a.Back()) == m.back(), "%s after %s: front/back", who, op);
    { auto sl = ca.GetSlice();
    CHECK(sl.start == ca.begin() && (size_t)sl.length == m.size(), "%s after %s: slice", who, op); }
  }
}
static void livecheck(size_t n, const char* op) { CHECK(live == (long)n, "after %s: %ld live elements, containers hold %zu", op, live, n); }

template<class A, class T, bool COPY, bool HASCAP> static void seq(pbt::Src& s, size_t maxlen)
{
  typedef decltype(A().Capacity()) C;
  live = 0;
  {
    std::unique_ptr<A> a[2]; M m[2];
    a[0].reset(new A()); a[1].reset(s.boolean() ? new A() : new A());
    uint64_t sw = s.swarm(22);
    int maxop = 0; size_t peak = 0; bool grow = false, mid = false;
    auto rnd = [&]() { return (int)s.range(0, 99); };
    while(s.more())
    {
      int w = (int)s.draw(2) ; int o = 1 - w;
      A& x = *a[w]; M& mx = m[w]; A& y = *a[o]; M& my = m[o];
      const char* op = "";
      int k; do k = s.pick({ 8, 6, 4, 5, 3, 4, 4, 2, 2, 2, 2, 1, 2, 1, 2, 2, 2, 1, 1, 2, 2, 2 }); while(!((sw >> k) & 1));
      ++maxop;
      size_t cap0 = (size_t)x.Capacity();
      switch(k)
      {
      case 0: { if(mx.size() + 1 > maxlen) continue; op = "Add(const&)"; int v = rnd(); T t(v); size_t r; if constexpr(COPY) r = x.Add(t); else r = x.Add(T(v)); CHECK(r == mx.size(), "Add returned %zu", r); mx.push_back(v); break; }
      case 1: { if(mx.size() + 1 > maxlen) continue; op = "Add(&&)"; int v = rnd(); size_t r = x.Add(T(v)); CHECK(r == mx.size(), "Add returned %zu", r); mx.push_back(v); break; }
      case 2: { if(mx.empty()) continue; op = "Remove"; size_t i = s.draw(mx.size()); s.note("  at %zu", i); x.Remove((C)i); mx.erase(mx.begin() + i); mid |= i + 1 < mx.size(); break; }
      case 3: { if(mx.size() + 1 > maxlen) continue; op = "Insert"; int v = rnd(); size_t i = s.draw(mx.size() + 1); s.note("  at %zu", i); if constexpr(COPY) { T t(v); if(s.boolean()) x.Insert(t, (C)i); else x.Insert(T(v), (C)i); } else x.Insert(T(v), (C)i); mx.insert(mx.begin() + i, v); mid |= i < mx.size(); break; }
      case 4: { if(mx.empty()) continue; op = "RemoveLast"; x.RemoveLast(); mx.pop_back(); break; }
      case 5: if constexpr(COPY) { op = "Set(ptr,n)"; M v; while(v.size() < maxlen && s.more(5)) v.push_back(rnd()); if(v.empty()) v.push_back(1); std::vector<T> t; for(int e : v) t.push_back(T(e)); if(s.boolean()) x.Set(t.data(), (C)v.size()); else x.Set(Slice<const T, C>(t.data(), (C)v.size())); mx = v; } break;
      case 6:
      {
        op = "SetLength"; size_t n = s.draw(std::min(maxlen, mx.size() * 2 + 4)); s.note("  to %zu", n);
        size_t old = mx.size();
        if constexpr(HASCAP) x.SetLength((C)n); else x.SetCapacity((C)n);
        mx.resize(n, 0);
        for(size_t i = old; i < n; ++i)
        {
          if constexpr(tracked<T>) { CHECK(val(x.begin()[i]) == 0, "element %zu of the grown array is not default constructed", i); }
          else x.begin()[i] = T(mx[i] = rnd());
        }
        break;
      }
      case 7: op = "Clear"; x.Clear(); mx.clear(); break;
      case 8: { op = "SetCapacity"; size_t n = s.draw(std::min(maxlen, mx.size() * 2 + 8)); s.note("  to %zu", n); if constexpr(HASCAP) { x.SetCapacity((C)n); CHECK((size_t)x.Capacity() >= n, "SetCapacity gave less"); } break; }
      case 9: if constexpr(COPY) { op = "copy-assign"; if(s.chance(1, 8)) { op = "self-assign"; A& z = x; x = z; } else { x = y; mx = my; } } break;
      case 10: op = "move-assign"; x = std::move(y); mx = my; my.clear(); break;
      case 11: if constexpr(COPY) { op = "copy-construct"; a[o].reset(new A(x)); my = mx; } break;
      case 12: { op = "move-construct"; std::unique_ptr<A> n(new A(std::move(x))); CHECK(len(x) == 0 && x.Empty(), "moved-from container holds %zu elements", len(x)); if(s.boolean()) { x.Add(T(7)); CHECK(len(x) == 1 && val(x.begin()[0]) == 7, "moved-from container is unusable"); } a[w] = std::move(n); break; }
      case 13: if constexpr(COPY) { op = "init-list"; a[w].reset(new A{ T(3), T(1), T(2), T(1) }); mx = { 3, 1, 2, 1 }; } break;
      case 14: if constexpr(COPY && !iscompact<A>) { if(mx.size() + my.size() > maxlen) continue; if(s.chance(1, 8) && 2 * mx.size() <= maxlen) { op = "append itself"; A& z = x; x += z; M c = mx; mx.insert(mx.end(), c.begin(), c.end()); break; } op = "operator+="; x += y; mx.insert(mx.end(), my.begin(), my.end()); } break;
      case 15: if constexpr(COPY && !iscompact<A>) { if(mx.size() + my.size() > maxlen) continue; op = "operator+"; A z(x + y); M mz = mx; mz.insert(mz.end(), my.begin(), my.end()); same<A, T>(z, mz, "sum", op); } break;
      case 16: if constexpr(COPY) { op = "assign slice"; M v; while(v.size() < maxlen && s.more(4)) v.push_back(rnd()); if(v.empty()) v.push_back(1); std::vector<T> t; for(int e : v) t.push_back(T(e)); x = Slice<const T, C>(t.data(), (C)v.size()); mx = v; } break;
      case 17: if constexpr(COPY && !isfixed<A>) { op = "construct from slice"; M v; while(v.size() < maxlen && s.more(4)) v.push_back(rnd()); if(v.empty()) v.push_back(1); std::vector<T> t; for(int e : v) t.push_back(T(e)); a[w].reset(new A(Slice<const T, C>(t.data(), (C)v.size()))); mx = v; } break;
      case 18: if constexpr(HASCAP && !iscompact<A>) { op = "construct with capacity"; C n = (C)s.draw(std::min<size_t>(maxlen, 12)); a[w].reset(new A(n)); CHECK((size_t)a[w]->Capacity() >= (size_t)n, "constructed capacity"); mx.clear(); } break;
      case 19: { if(mx.empty()) continue; op = "write"; size_t i = s.draw(mx.size()); int v = rnd(); (*a[w]).begin()[i] = T(v); mx[i] = v; break; }
      case 20:
        if constexpr(isfixed<A>)
        {
          size_t n = s.draw(std::min(maxlen, mx.size() * 2 + 6)); 
          if(s.boolean()) { op = "construct with capacity"; a[w].reset(new A((C)n)); mx.clear(); }
          else { if(n == mx.size()) continue; op = "SetCapacityDiscard"; x.SetCapacityDiscard((C)n); }
          s.note("  to %zu", n);
          CHECK((size_t)a[w]->Capacity() == n, "%s(%zu): capacity %zu", op, n, (size_t)a[w]->Capacity());
          mx.assign(n, 0);
          for(size_t i = 0; i < n; ++i)
          {
            if constexpr(tracked<T>) { CHECK(val(a[w]->begin()[i]) == 0, "%s: element %zu is not default constructed", op, i); }
            else a[w]->begin()[i] = T(mx[i] = rnd());
          }
        }
        break;
      case 21: if constexpr(HASCAP && !iscompact<A>) { if(mx.size() + 1 > maxlen) continue; op = "AddConstruct"; int v = rnd(); size_t r = x.AddConstruct(v); CHECK(r == mx.size(), "AddConstruct returned %zu", r); mx.push_back(v); } break;
      }
      if(!*op) continue;
      s.note("%c.%s -> %s", 'A' + w, op, s.verbose() ? str(mx).c_str() : "");
      same<A, T>(*a[0], m[0], "A", op); same<A, T>(*a[1], m[1], "B", op);
      if constexpr(tracked<T>) livecheck(m[0].size() + m[1].size(), op);
      peak = std::max(peak, mx.size()); grow |= (size_t)a[w]->Capacity() > cap0;
    }
    s.nontrivial(maxop >= 4 && peak >= 3 && grow);
    if(mid) s.label("insert/remove in the middle");
    if(peak > 20) s.label("more than 20 elements");
  }
  if constexpr(tracked<T>) CHECK(live == 0, "%ld elements never destroyed", live);
}
#define RULE "operation sequence on two containers with >=4 operations that reaches >=3 elements and reallocates"
PROP(dynarray_simple, 1, pbt::LEAKCHECK, RULE) { if(s.boolean()) seq<DynArray<int>, int, true, true>(s, 400); else seq<DynArray<int, uint8_t>, int, true, true>(s, 60); }
PROP(dynarray_construct, 1, pbt::LEAKCHECK, RULE) { seq<DynArray<Reloc, size_t, ARRAY_CONSTRUCT>, Reloc, true, true>(s, 300); }
PROP(dynarray_safe, 1, pbt::LEAKCHECK, RULE) { if(s.boolean()) seq<DynArray<Safe, size_t, ARRAY_SAFE>, Safe, true, true>(s, 300); else seq<DynArray<Safe, int, ARRAY_SAFE>, Safe, true, true>(s, 300); }
PROP(dynarray_move, 1, pbt::LEAKCHECK, RULE) { seq<DynArray<MoveOnly, size_t, ARRAY_MOVE>, MoveOnly, false, true>(s, 300); }
PROP(array_simple, 0.7, pbt::LEAKCHECK, RULE) { if(s.boolean()) seq<Array<int>, int, true, false>(s, 200); else seq<Array<short, uint32_t>, short, true, false>(s, 200); }
PROP(array_construct, 0.7, pbt::LEAKCHECK, RULE) { seq<Array<Reloc, size_t, ARRAY_CONSTRUCT>, Reloc, true, false>(s, 200); }
PROP(array_safe, 0.7, pbt::LEAKCHECK, RULE) { seq<Array<Safe, size_t, ARRAY_SAFE>, Safe, true, false>(s, 200); }
PROP(array_move, 0.7, pbt::LEAKCHECK, RULE) { seq<Array<MoveOnly, size_t, ARRAY_MOVE>, MoveOnly, false, false>(s, 200); }
PROP(compact, 1, pbt::LEAKCHECK, RULE)
{
  switch(s.draw(3))
  {
  case 0: seq<CompactArray<int, 4>, int, true, true>(s, 100); break;
  case 1: seq<CompactArray<int, 1>, int, true, true>(s, 100); break;
  case 2: seq<CompactArray<short, 7, uint32_t>, short, true, true>(s, 100); break;
  }
}

PROP(dynarray_bool, 1, pbt::LEAKCHECK, "operation sequence reaching more than 8 bits with an insertion, removal or reallocation")
{
  typedef DynArray<bool> A; typedef std::vector<bool> B;
  A a[2]; B m[2]; bool shift = false; size_t peak = 0;
  uint64_t sw = s.swarm(14);
  while(s.more())
  {
    int w = (int)s.draw(2), o = 1 - w; A& x = a[w]; B& mx = m[w]; const char* op = "";
    int k; do k = s.pick({ 10, 5, 5, 1, 2, 3, 1, 1, 1, 2, 2, 1, 3, 1 }); while(!((sw >> k) & 1));
    switch(k)
    {
    case 0: { op = "Add"; bool b = s.boolean(); size_t r = x.Add(b); CHECK(r == mx.size(), "Add returned %zu", r); mx.push_back(b); break; }
    case 1: { op = "Insert"; bool b = s.boolean(); size_t i = s.draw(mx.size() + 1); x.Insert(b, i); mx.insert(mx.begin() + i, b); shift = true; s.note("  %d at %zu", b, i); break; }
    case 2: { if(mx.empty()) continue; op = "Remove"; size_t i = s.draw(mx.size()); x.Remove(i); mx.erase(mx.begin() + i); shift = true; s.note("  at %zu", i); break; }
    case 3: op = "Clear"; x.Clear(); mx.clear(); break;
    case 4: { op = "SetLength"; size_t n = s.draw(mx.size() * 2 + 20); x.SetLength(n); mx.resize(n, false); s.note("  to %zu", n); break; }
    case 5: { if(mx.empty()) continue; op = "write"; size_t i = s.draw(mx.size()); bool b = s.boolean(); x[i] = b; mx[i] = b; auto r = x[i]; bool q = s.boolean(); char c = (char)s.draw(4); CHECK((r || q) == (b || q) && (r && q) == (b && q) && (r == q) == (b == q) && (r != q) == (b != q) && (r | c) == (c | b) && (r & c) == (c & b) && (r ^ c) == (c ^ b) && !r == !b, "operators of a bit reference"); if(s.chance(1, 3)) { r.flip(); mx[i] = !b; } else if(s.chance(1, 3)) { size_t j = s.draw(mx.size()); x[i] = x[j]; mx[i] = (bool)mx[j]; } break; }
    case 6: { op = "copy-assign"; if(s.chance(1, 8)) o = w; a[w] = a[o]; m[w] = m[o]; break; }
    case 7: { op = "move"; A t(std::move(a[w])); a[w] = std::move(t); break; }
    case 8: { op = "copy-construct"; A t(x); a[o] = std::move(t); m[o] = mx; break; }
    case 9: { op = "AddConstruct"; size_t r = x.AddConstruct(); CHECK(r == mx.size(), "AddConstruct returned %zu", r); mx.push_back(false); break; }
    case 10: { op = "SetCapacity"; size_t n = s.draw(mx.size() * 2 + 40); x.SetCapacity(n); CHECK(x.Capacity() >= n, "capacity"); break; }
    case 11: { op = "Flip"; x.Flip(); mx.flip(); break; }
    case 12: { if(mx.empty()) continue; op = "RemoveLast"; x.RemoveLast(); mx.pop_back(); break; }
    case 13: { if(s.boolean()) { op = "construct with capacity"; size_t n = s.draw(70); A t(n); CHECK(t.Capacity() >= n && t.Length() == 0 && t.Empty(), "array built with capacity %zu: capacity %zu, length %zu", n, t.Capacity(), t.Length()); a[w] = std::move(t); mx.clear(); } else { op = "init-list"; A t{ true, false, true, true, false, false, true, true, false, true }; a[w] = std::move(t); mx = B{ true, false, true, true, false, false, true, true, false, true }; } break; }
    }
    s.note("%c.%s (%zu bits)", 'A' + w, op, mx.size());
    for(int j = 0; j < 2; ++j)
    {
      const A& c = a[j]; CHECK(c.Length() == m[j].size() && c.Empty() == m[j].empty() && c.Capacity() >= m[j].size(), "length after %s", op);
      for(size_t i = 0; i < m[j].size(); ++i) CHECK(c[i] == m[j][i] && (bool)a[j][i] == m[j][i], "bit %zu of %zu after %s", i, m[j].size(), op);
      if(!m[j].empty()) CHECK(c.Front() == m[j].front() && c.Back() == m[j].back() && (bool)a[j].Front() == m[j].front() && (bool)a[j].Back() == m[j].back(), "front/back after %s", op);
    }
    if(!a[w].Empty() && s.chance(1, 6))
    {
      A& y = a[w]; const A& cy = y; const B& my = m[w];
      if(s.boolean()) walk<true>(s, y.begin(), y.end(), my.size(), [&](auto& it, size_t i) { CHECK((bool)*it == my[i], "iterator at bit %zu", i); if(s.chance(1, 4)) { *it = !my[i]; m[w][i] = !my[i]; CHECK(cy[i] == my[i], "write through the iterator at bit %zu", i); } });
      else walk<true>(s, cy.begin(), cy.end(), my.size(), [&](auto& it, size_t i) { CHECK((bool)*it == my[i], "const iterator at bit %zu", i); });
      for(size_t i = 0; i < y.Capacity() / 8; ++i) { int e = 0; for(int j = 0; j < 8; ++j) if(i * 8 + j < my.size() && my[i * 8 + j]) e |= 1 << j; CHECK(cy.GetRawByte(i) == e, "GetRawByte(%zu) of %zu bits is %d expected %d", i, my.size(), cy.GetRawByte(i), e); }
    }
    if(!mx.empty()) { size_t b = s.draw(mx.size()), n = s.draw(mx.size() - b + 1), c = 0; for(size_t i = b; i < b + n; ++i) c += mx[i]; CHECK(x.CountBits(b, n) == c, "CountBits(%zu,%zu) of %zu", b, n, mx.size()); }
    peak = std::max(peak, mx.size());
  }
  s.nontrivial(peak > 8 && shift);
}

PROP(arbitrary, 0.5, pbt::LEAKCHECK, "sequence of >=3 operations with an element-size change while elements are stored")
{
  typedef std::vector<std::vector<uint8_t>> B;
  size_t el = 1 + s.draw(9), init = s.draw(5);
  ArbitraryArray<size_t> x(init, el); B m; int ops = 0; bool changed = false;
  while(s.more())
  {
    switch(s.pick({ 8, 4, 2, 3, 1, 3, 2, 1 }))
    {
    case 7: { m.clear(); el = sizeof(uint32_t); uint32_t raw[3]; for(auto& v : raw) { v = (uint32_t)s.draw(0); std::vector<uint8_t> e(4); memcpy(e.data(), &v, 4); m.push_back(e); } if(s.boolean()) x.SetElement(raw); else { std::array<uint32_t, 3> sa = { raw[0], raw[1], raw[2] }; x.SetElement(sa); } break; }
    case 0: { uint64_t v = s.draw(0); size_t r = x.Add<uint64_t>(v); CHECK(r == m.size(), "Add"); std::vector<uint8_t> e(el, 0); memcpy(e.data(), &v, std::min<size_t>(8, el)); m.push_back(e); if(el > 8) memset((uint8_t*)x.Get(r) + 8, 0, el - 8); break; }
    case 1: { if(m.empty()) continue; size_t i = s.draw(m.size()); x.Remove(i); m.erase(m.begin() + i); break; }
    case 2: { if(m.empty()) continue; x.RemoveLast(); m.pop_back(); break; }
    case 3: { size_t e = 1 + s.draw(12); changed |= e != el && m.size() > 1; x.SetElement(e); el = e; for(auto& q : m) q.resize(e, 0); s.note("  element size %zu", e); break; }
    case 4: { x.Clear(); m.clear(); break; }
    case 5:
    {
      ArbitraryArray<size_t> t(x);
      switch(s.draw(4))
      {
      case 0: x = t; break;
      case 1: { auto& self = x; x = self; break; }
      case 2: { ArbitraryArray<size_t> u(std::move(t)); CHECK(t.Empty() && t.Length() == 0, "moved-from array not empty"); if(s.boolean()) { uint8_t b = 7; t.Add(b); CHECK(t.Length() == 1 && *(const uint8_t*)t[0] == 7, "moved-from array cannot be reused"); } x = std::move(u); CHECK(u.Length() == 0, "moved-from array not empty after move assignment"); break; }
      case 3: { size_t keep = s.draw(m.size() + 1); x.SetLength(keep); m.resize(keep); break; }
      }
      break;
    }
    case 6: { el = 1 + s.draw(7); m.clear(); std::vector<uint8_t> raw; size_t n = 1 + s.draw(6); for(size_t i = 0; i < n; ++i) { std::vector<uint8_t> e; for(size_t j = 0; j < el; ++j) { e.push_back((uint8_t)s.draw(256)); raw.push_back(e.back()); } m.push_back(e); } x.SetElement(raw.data(), el, n); break; }
    }
    ++ops; s.note("op %d: %zu elements of %zu bytes", ops, m.size(), el);
    CHECK(x.Length() == m.size() && x.Element() == el && x.Empty() == m.empty(), "length %zu expected %zu", (size_t)x.Length(), m.size());
    const auto& cx = x;
    for(size_t i = 0; i < m.size(); ++i) CHECK(!memcmp(x[i], m[i].data(), el) && cx[i] == x[i] && cx.Get(i) == x[i] && x.Get(i) == x[i] && &x.Get<uint8_t>(i) == x[i] && &cx.Get<uint8_t>(i) == x[i], "element %zu of %zu", i, m.size());
    struct alignas(1) Three { uint8_t b[3]; };
    if(!m.empty()) CHECK((void*)&x.Front<Three>() == x[0] && (const void*)&cx.Front<Three>() == x[0] && (void*)&x.Back<Three>() == x[m.size() - 1] && (const void*)&cx.Back<Three>() == x[m.size() - 1] && (void*)x.begin<Three>() == x[0] && (const void*)cx.begin<Three>() == x[0]
      && (uint8_t*)x.end<Three>() == (uint8_t*)x[0] + m.size() * el && (const uint8_t*)cx.end<Three>() == (uint8_t*)x[0] + m.size() * el, "typed accessors do not refer to the stored elements");
  }
  s.nontrivial(ops >= 3 && changed);
}

template<class T, ARRAY_TYPE AT> static void stacktest(pbt::Src& s)
{
  live = 0;
  {
    Stack<T, size_t, AT> st((size_t)s.draw(4)); M m; int pops = 0; size_t peak = 0;
    while(s.more())
    {
      switch(s.pick({ 10, 5, 2, 1, 1, 1, 1 }))
      {
      case 0: { int v = (int)s.draw(100); if(s.boolean()) { T t(v); st.Push(t); } else st.Push(T(v)); m.push_back(v); break; }
      case 1: { if(m.empty()) continue; T t(st.Pop()); CHECK(val(t) == m.back(), "popped %d expected %d", val(t), m.back()); m.pop_back(); ++pops; break; }
      case 2: { if(m.empty()) continue; st.Discard(); m.pop_back(); ++pops; break; }
      case 3: st.Clear(); m.clear(); break;
      case 4: { if(s.boolean()) { Stack<T, size_t, AT> t; t = st; st = std::move(t); break; } Stack<T, size_t, AT> t(st); CHECK(t.Length() == m.size(), "copied depth"); st.Clear(); Stack<T, size_t, AT> u(std::move(t)); CHECK(u.Length() == m.size(), "moved depth"); st = u; break; }
      case 5: { if(m.empty()) continue; size_t n = s.draw(m.size() + 1); st.SetLength(n); m.resize(n); break; }
      case 6: { if(m.empty()) continue; size_t i = s.draw(m.size()); st[i] = T(7); m[i] = 7; break; }
      }
      peak = std::max(peak, m.size());
      CHECK(st.Length() == m.size() && st.Capacity() >= m.size(), "length");
      if(!m.empty()) CHECK(val(st.Peek()) == m.back() && val(((const Stack<T, size_t, AT>&)st).Peek()) == m.back(), "peek");
      for(size_t i = 0; i < m.size(); ++i) CHECK(val(st[i]) == m[i], "index %zu", i);
      if constexpr(tracked<T>) livecheck(m.size(), "stack op");
      s.note("stack %s", s.verbose() ? str(m).c_str() : "");
    }
    s.nontrivial(pops >= 2 && peak >= 3);
  }
  if constexpr(tracked<T>) CHECK(live == 0, "%ld elements never destroyed", live);
}
PROP(stack, 0.5, pbt::LEAKCHECK, "push/pop sequence with >=2 removals and depth >=3")
{
  switch(s.draw(3)) { case 0: stacktest<int, ARRAY_SIMPLE>(s); break; case 1: stacktest<Reloc, ARRAY_CONSTRUCT>(s); break; case 2: stacktest<Safe, ARRAY_SAFE>(s); break; }
}

// a multi-dimensional view addresses every cell of the flat array exactly once, the last axis contiguous
PROP(multiref, 0.3, pbt::LEAKCHECK, "view of >=2 axes with >=2 cells along two of them")
{
  int d[4]; int n = 2 + (int)s.draw(3); size_t total = 1; int big = 0;
  for(int i = 0; i < n; ++i) { d[i] = 1 + (int)s.draw(5); total *= d[i]; big += d[i] > 1; }
  std::vector<int> cells(total); for(size_t i = 0; i < total; ++i) cells[i] = (int)i;
  s.note("%d axes: %d %d %d %d", n, d[0], d[1], n > 2 ? d[2] : 0, n > 3 ? d[3] : 0);
  int expect = 0;
  #define CELL(V, ...) { CHECK(V.GetIndice(__VA_ARGS__) == expect, "cell %d is addressed as %td", expect, V.GetIndice(__VA_ARGS__)); CHECK(&V(__VA_ARGS__) == &cells[expect], "cell %d", expect); ++expect; }
  if(n == 2) { ArrayMultiRef<int, int, int> v(cells.data(), d[0], d[1]); CHECK((int*)v == cells.data() && v == cells.data() && !(v != cells.data()) && !!v, "view pointer"); for(int i = 0; i < d[0]; ++i) for(int j = 0; j < d[1]; ++j) CELL(v, i, j) }
  else if(n == 3) { ArrayMultiRef<int, int, short, int> v0(cells.data(), d[0], (short)d[1], d[2]); auto v(v0); for(int i = 0; i < d[0]; ++i) for(int j = 0; j < d[1]; ++j) for(int k = 0; k < d[2]; ++k) CELL(v, i, j, k) }
  else { ArrayMultiRef<int, int, int, size_t, int> v(cells.data(), d[0], d[1], (size_t)d[2], d[3]); for(int i = 0; i < d[0]; ++i) for(int j = 0; j < d[1]; ++j) for(int k = 0; k < d[2]; ++k) for(int l = 0; l < d[3]; ++l) CELL(v, i, j, k, l) }
  s.nontrivial(big >= 2);
}
template<class T> static void vararr(pbt::Src& s, size_t n)
{
  size_t before = live;
  {
    VARARRAY(T, v, n);
    const auto& cv = v;
    CHECK(v.Length() == n && (size_t)(v.end() - v.begin()) == n && (size_t)(cv.end() - cv.begin()) == n, "length %zu of an array of %zu", v.Length(), n);
    if constexpr(tracked<T>) { CHECK(live == (long)(before + n), "%ld live elements in an array of %zu", live, n); for(size_t i = 0; i < n; ++i) CHECK(val(v[i]) == 0, "element %zu not default constructed", i); }
    for(size_t i = 0; i < n; ++i) v[i] = T((int)(i % 991));
    for(size_t i = 0; i < n; ++i) CHECK(val(v.begin()[i]) == (int)(i % 991), "element %zu", i);
    if(n) { CHECK(&v.Front() == &v[0] && &cv.Front() == &v[0] && &v.Back() == &v[n - 1] && &cv.Back() == &v[n - 1] && &*v == &v[0], "front/back"); auto sl = v.GetSlice(); CHECK(sl.start == &v[0] && sl.length == n, "slice"); }
  }
  if constexpr(tracked<T>) CHECK(live == (long)before, "%ld elements never destroyed", live - (long)before);
}
PROP(vararray, 0.3, pbt::LEAKCHECK, "variable-length array of >=2 elements")
{
  live = 0; int k = (int)s.draw(3); size_t sz = k == 0 ? sizeof(int) : (k == 1 ? sizeof(Safe) : 1), edge = 0xFFFF / sz;
  size_t n = s.boolean() ? s.draw(40) : edge - 2 + s.draw(6); s.note("kind %d, %zu elements", k, n);
  if(k == 0) vararr<int>(s, n); else if(k == 1) vararr<Safe>(s, n); else { VARARRAY(char, v, n); memset(v.begin(), 1, n); CHECK(v.Length() == n, "length"); }
  s.nontrivial(n >= 2); if(n > 1000) s.label("around the stack/heap threshold");
}

PROP(slice, 0.3, pbt::LEAKCHECK, "slice of >=3 elements advanced at least once")
{
  size_t n = s.draw(12), pos = 0; std::vector<int> v(n + 1); for(size_t i = 0; i < n; ++i) v[i] = (int)i * 3 + 1;
  Slice<int> x(v.data(), n); bool adv = false; int arr[5] = { 1, 2, 3, 4, 5 }; Slice<int> z(arr); CHECK(z.start == arr && z.length == 5, "slice of a built-in array");
  for(;;)
  {
    const Slice<int>& c = x; Slice<const int> r = x; Slice<int> q; q = x;
    CHECK(x.start == v.data() + pos && x.length == n - pos && r.start == x.start && r.length == x.length && q.start == x.start && q.length == x.length, "slice after %zu steps", pos);
    CHECK((!x) == (n == pos) && x.Valid() == (n != pos) && (size_t)(x.end() - x.begin()) == n - pos && (size_t)(c.end() - c.begin()) == n - pos, "slice validity after %zu of %zu steps", pos, n);
    for(size_t i = pos; i < n; ++i) CHECK(&x[i - pos] == &v[i] && &c[i - pos] == &v[i], "slice element");
    if(pos == n || !s.more()) break;
    {
      size_t len = n - pos, b = s.draw(len), e = b + s.draw(len - b + 1); if(!b && !e) e = len; // an end of 0 means "up to the end"
      auto p = x(b, e == 0 ? len : e), cp = c(b, e); auto t = x(b), ct = c(b); const int* at = v.data() + pos + b;
      CHECK(p.start == at && p.length == e - b && cp.start == at && cp.length == e - b, "part [%zu,%zu) of a slice of %zu", b, e, len);
      CHECK(t.start == at && t.length == len - b && ct.start == at && ct.length == len - b, "part from %zu of a slice of %zu", b, len);
      Slice<int, int> sg(v.data() + pos, (int)len); const auto& csg = sg; int nb = (int)b - (s.boolean() && b ? (int)len : 0), ne = (int)e - (s.boolean() || e == len ? (int)len : 0);
      auto q1 = sg(nb, ne), q2 = csg(nb, ne);
      CHECK(q1.start == at && q1.length == (int)(e - b) && q2.start == at && q2.length == (int)(e - b), "part [%d,%d) of a slice of %zu", nb, ne, len);
    }
    CHECK(&x.Front() == &v[pos] && &c.Front() == &v[pos] && &x.Back() == &v[n - 1] && &c.Back() == &v[n - 1], "slice front/back");
    if(s.boolean()) { Slice<int> o(x++); CHECK(o.start == v.data() + pos && o.length == n - pos, "postfix increment"); } else { CHECK(&++x == &x, "prefix increment"); }
    ++pos; adv = true;
  }
  CHECK(!Slice<int>(nullptr, 3).Valid() && !Slice<int>(nullptr, 3) == true, "null slice");
  s.nontrivial(adv && n >= 3);
}
