// Hash tables against std::map, with adversarial hash functions and element lifetimes.
#include "tracked.h"
#include "bss-util/Hash.h"
#include <map>
#include <set>
#include <string>
using namespace bss;
using namespace trk;

template<class K> static khint_t bad1(const K& k) { return (khint_t)0x80000000u; }
template<class K> static khint_t bad4(const K& k) { return (khint_t)(val(k) & 3); }
template<class K> static khint_t low0(const K& k) { return (khint_t)((uint32_t)val(k) << 8); }
template<class K> static khint_t ident(const K& k) { return (khint_t)val(k); }
template<class K> static bool eqk(const K& a, const K& b) { return val(a) == val(b); }

// key families: make a key for id n, and recover n
struct IntKey { typedef int K; static K mk(pbt::Src&, int n) { return n; } static int id(const K& k) { return k; } };
struct NegKey { typedef int K; static K mk(pbt::Src&, int n) { return -n * 65536; } static int id(const K& k) { return -(k / 65536); } };
struct LongKey { typedef int64_t K; static K mk(pbt::Src&, int n) { return ((int64_t)n << 33) ^ (n & 1 ? INT64_MIN : 0); } static int id(const K& k) { return (int)((k & INT64_MAX) >> 33); } };
struct ShortKey { typedef uint16_t K; static K mk(pbt::Src&, int n) { return (uint16_t)(n * 256 + n / 256); } static int id(const K& k) { return k / 256 + (k % 256) * 256; } };
struct RelocKey { typedef Reloc K; static K mk(pbt::Src&, int n) { return K(n); } static int id(const K& k) { return k.get(); } };
struct SafeKey { typedef Safe K; static K mk(pbt::Src&, int n) { return K(n); } static int id(const K& k) { return k.get(); } };
struct PairKey { typedef std::pair<int, short> K; static K mk(pbt::Src&, int n) { return K(n / 7, (short)(n % 7)); } static int id(const K& k) { return k.first * 7 + k.second; } };
struct TupKey { typedef std::tuple<int64_t, int, int> K; static K mk(pbt::Src&, int n) { return K(n / 49, n / 7 % 7, n % 7); } static int id(const K& k) { return (int)std::get<0>(k) * 49 + std::get<1>(k) * 7 + std::get<2>(k); } };
struct StrPool { std::vector<std::string> names; std::map<std::string, int> ids; };
static StrPool* pool;
static int lookup(std::string v, bool ins) { if(ins) for(auto& c : v) if(c >= 'A' && c <= 'Z') c += 32; auto it = pool->ids.find(v); CHECK(it != pool->ids.end(), "table holds a key never inserted"); return it->second; }
static std::string recase(pbt::Src& s, std::string v, bool ins) { if(ins) for(auto& c : v) if(c >= 'a' && c <= 'z' && s.boolean()) c -= 32; return v; }
template<bool INS> struct StdKey { typedef std::string K; static K mk(pbt::Src& s, int n) { return recase(s, pool->names[n], INS); } static int id(const K& k) { return lookup(k, INS); } };
template<bool INS> struct BssKey { typedef Str K; static K mk(pbt::Src& s, int n) { return Str(recase(s, pool->names[n], INS).c_str()); } static int id(const K& k) { return lookup(k.c_str(), INS); } };
static std::vector<std::unique_ptr<std::string>>* keep;
template<bool INS> struct PtrKey { typedef const char* K; static K mk(pbt::Src& s, int n) { keep->emplace_back(new std::string(recase(s, pool->names[n], INS))); return keep->back()->c_str(); } static int id(const K& k) { return lookup(k, INS); } };

static std::wstring widen(const std::string& v) { std::wstring w; for(unsigned char c : v) w += (wchar_t)c; return w; }
static std::string narrow(const wchar_t* w) { std::string v; for(; *w; ++w) v += (char)*w; return v; }
template<bool INS> struct WStdKey { typedef std::wstring K; static K mk(pbt::Src& s, int n) { return widen(recase(s, pool->names[n], INS)); } static int id(const K& k) { return lookup(narrow(k.c_str()), INS); } };
static std::vector<std::unique_ptr<std::wstring>>* wkeep;
template<bool INS> struct WPtrKey { typedef const wchar_t* K; static K mk(pbt::Src& s, int n) { wkeep->emplace_back(new std::wstring(widen(recase(s, pool->names[n], INS)))); return wkeep->back()->c_str(); } static int id(const K& k) { return lookup(narrow(k), INS); } };

template<class KF, class H, class D> static void run(pbt::Src& s, int maxdom)
{
  typedef typename KF::K K; constexpr bool MAP = H::IsMap;
  live = 0; StrPool sp; pool = &sp; std::vector<std::unique_ptr<std::string>> kp; keep = &kp; std::vector<std::unique_ptr<std::wstring>> wkp; wkeep = &wkp;
  int dom = (int)(2 + s.draw(s.boolean() ? 200 : 12)); if(dom > maxdom) dom = maxdom;
  if constexpr(std::is_same_v<K, std::string> || std::is_same_v<K, Str> || std::is_same_v<K, const char*> || std::is_same_v<K, std::wstring> || std::is_same_v<K, const wchar_t*>)
    for(int i = 0; i < dom; ++i) { std::string n; switch(s.draw(4)) { case 0: n = "k" + std::to_string(i); break; case 1: n = std::string(i % 40, 'a') + (char)('a' + i % 26); break; default: { int l = (int)s.draw(6); for(int j = 0; j < l; ++j) { int c = (int)(1 + s.draw(255)); if(c >= 'A' && c <= 'Z') c += 32; n += (char)c; } } }
      while(sp.ids.count(n)) n += (char)('a' + sp.ids.size() % 26); sp.ids[n] = i; sp.names.push_back(n); }
  {
    std::unique_ptr<H> h(s.boolean() ? new H() : new H((khint_t)s.draw(100))); std::map<int, int> m; int ops = 0, stamp = 0; size_t peak = 0; bool reins = false, moved = false, rehash = false; std::set<int> ever; khint_t cap = h->Capacity();
    uint64_t sw = s.swarm(11);
    auto dat = [&](int d) { if constexpr(MAP) return D(d); else return 0; };
    while(s.more())
    {
      int k; do k = s.pick({ 16, 9, 3, 3, 3, 2, 1, 1, 1, 1, 2 }); while(!((sw >> k) & 1));
      int key = (int)s.draw(dom); if((k == 1 || k == 3 || k == 4) && m.size() && s.chance(1, 2)) { auto it = m.lower_bound(key); if(it == m.end()) it = m.begin(); key = it->first; }
      switch(k)
      {
      case 0: { int d = ++stamp; khiter_t it; bool mk = s.boolean(), md = s.boolean(); reins |= ever.count(key) && !m.count(key); ever.insert(key);
        if constexpr(MAP) { K kk(KF::mk(s, key)); if constexpr(std::is_same_v<D, MoveOnly>) md = true; if(md) { if(mk) it = h->Insert(std::move(kk), D(d)); else it = h->Insert((const K&)kk, D(d)); } else if constexpr(!std::is_same_v<D, MoveOnly>) { D dd(d); if(mk) it = h->Insert(std::move(kk), (const D&)dd); else it = h->Insert((const K&)kk, (const D&)dd); CHECK(val(dd) == d, "Insert changed the value it copied"); } }
        else { K kk(KF::mk(s, key)); if(mk) it = h->Insert(std::move(kk)); else it = h->Insert((const K&)kk); }
        CHECK(h->ExistsIter(it) && KF::id(h->GetKey(it)) == key, "Insert(%d) returned a wrong iterator", key); m[key] = d; s.note("insert %d", key); break; }
      case 1: { K kk(KF::mk(s, key)); bool b = h->Remove(kk); CHECK(b == (m.count(key) > 0), "Remove(%d) returned %d", key, b); m.erase(key); s.note("remove %d", key); break; }
      case 2: { K kk(KF::mk(s, key)); bool b = h->RemoveIter(h->Iterator(kk)); CHECK(b == (m.count(key) > 0), "RemoveIter(%d) returned %d", key, b); m.erase(key); break; }
      case 3: { K kk(KF::mk(s, key)); bool e = m.count(key) > 0; CHECK(h->Exists(kk) == e && (*h)(kk) == e && h->ExistsIter(h->Iterator(kk)) == e, "Exists(%d) should be %d", key, e); break; }
      case 4: { if constexpr(MAP) { K kk(KF::mk(s, key)); D* p = h->PointerValue(h->Iterator(kk)); CHECK((p != 0) == (m.count(key) > 0), "lookup of %d", key); if(p) CHECK(val(*p) == m[key], "value %d for key %d expected %d", val(*p), key, m[key]);
          if constexpr(std::is_integral_v<D>) CHECK(h->Get(kk) == (p ? m[key] : (D)~0) && (*h)[kk] == h->Get(kk), "Get(%d)", key); else { auto* g = h->Get(kk); CHECK((void*)g == (void*)p, "Get(%d)", key); }
          if constexpr(!std::is_same_v<D, MoveOnly>) { D out(-9); bool b = (*h)(kk, out); CHECK(b == (p != 0) && val(out) == (p ? m[key] : -9), "operator()(key, out)"); } } break; }
      case 5: { if constexpr(MAP) { int d = ++stamp; K kk(KF::mk(s, key)); bool b; if(s.boolean()) b = h->Set(kk, D(d)); else b = h->SetValue(h->Iterator(kk), D(d)); CHECK(b == (m.count(key) > 0), "Set(%d) returned %d", key, b); if(b) m[key] = d; } break; }
      case 6: h->Clear(); m.clear(); s.note("clear"); break;
      case 7: { khint_t c = (khint_t)s.draw(200); h->SetCapacity(c); CHECK((int)h->Capacity() >= (int)c, "SetCapacity(%d) left %d", (int)c, (int)h->Capacity()); s.note("capacity %d", (int)c); break; }
      case 8: { if constexpr(!std::is_same_v<D, MoveOnly>) { if(s.chance(1, 5)) { H& self = *h; *h = self; s.note("self-assign"); break; } std::unique_ptr<H> n; if(s.boolean()) n.reset(new H(*h)); else { n.reset(new H((khint_t)s.draw(70))); int x = (int)s.draw(10); for(int i = 0; i < x && i < dom; ++i) { if constexpr(MAP) n->Insert(KF::mk(s, i), D(1)); else n->Insert(KF::mk(s, i)); } *n = *h; } if(s.boolean() && h->Capacity()) { if constexpr(MAP) h->Insert(KF::mk(s, 0), D(-3)); else h->Remove(KF::mk(s, 0)); } h = std::move(n); moved = true; s.note("copy"); } break; }
      case 9: { std::unique_ptr<H> n; if(s.boolean()) n.reset(new H(std::move(*h))); else { n.reset(new H()); if constexpr(MAP) n->Insert(KF::mk(s, 0), D(1)); else n->Insert(KF::mk(s, 0)); *n = std::move(*h); } CHECK(h->Length() == 0 && !h->Exists(KF::mk(s, 0)), "moved-from table not empty"); h = std::move(n); moved = true; s.note("move"); break; }
      case 10: { if(!m.empty()) { if(s.boolean()) { std::vector<khiter_t> ord; for(auto i = h->begin(); i != h->end(); ++i) ord.push_back(i.cur); CHECK(ord.size() == m.size(), "forward iteration"); walk<true>(s, h->begin(), h->end(), ord.size(), [&](auto& it, size_t i) { CHECK(it.cur == ord[i], "walking back and forth yields another entry at %zu", i); if constexpr(MAP) { CHECK(KF::id(std::get<0>(*it)) == KF::id(h->GetKey(ord[i])), "entry"); } else { CHECK(KF::id(*it) == KF::id(h->GetKey(ord[i])), "entry"); } }); } auto e = h->end(); size_t c = 0; std::set<int> g; do { --e; g.insert(KF::id(h->GetKey(e.cur))); ++c; } while(c < m.size()); CHECK(g.size() == m.size(), "backward iteration repeats keys"); } break; }
      }
      ++ops; peak = std::max(peak, m.size()); if(h->Capacity() != cap) { cap = h->Capacity(); rehash |= m.size() > 0; }
      CHECK((size_t)h->Length() == m.size(), "Length %d expected %zu after op %d", (int)h->Length(), m.size(), k);
      std::map<int, int> g; size_t c = 0;
      if constexpr(MAP) { for(auto [kk, v] : *h) { g[KF::id(kk)] = val(v); ++c; } CHECK(g == m && c == m.size(), "iteration yields %zu entries (%zu keys), expected %zu, after op %d", c, g.size(), m.size(), k); }
      else { for(auto& kk : *h) { g[KF::id(kk)] = 1; ++c; } CHECK(g.size() == m.size() && c == m.size(), "iteration yields %zu", c); for(auto& p : m) CHECK(g.count(p.first), "key %d missing", p.first); }
      { const H& ch = *h; auto ci = ch.begin(); for(auto i = h->begin(); i != h->end(); ++i, ++ci) { CHECK(ci != ch.end() && !(ci == ch.end()) && ci.cur == i.cur && &ch.GetKey(i.cur) == &h->GetKey(i.cur), "const iteration"); if constexpr(MAP) CHECK(&ch.Value(i.cur) == &h->Value(i.cur), "const value"); } CHECK(ci == ch.end(), "const iteration does not end"); }
      if(s.chance(1, 6)) for(int i = 0; i < dom; ++i) { K kk(KF::mk(s, i)); CHECK(h->Exists(kk) == (m.count(i) > 0), "sweep: Exists(%d) should be %zu", i, m.count(i)); }
      long per = (tracked<K> ? 1 : 0); if constexpr(MAP) per += tracked<D> ? 1 : 0;
      if(per) CHECK(live == per * (long)m.size(), "%ld live objects, table holds %zu entries (after op %d)", live, m.size(), k);
    }
    s.nontrivial(ops >= 6 && peak >= 3); if(reins) s.label("reinsertion of a removed key"); if(rehash) s.label("rehash with content"); if(moved) s.label("copy or move"); if(peak > 40) s.label(">40 entries");
  }
  CHECK(live == 0, "%ld objects never destroyed", live); pool = 0; keep = 0;
}
PROP(simple, 1.5, pbt::LEAKCHECK, "history of >=6 operations reaching >=3 entries, plain data")
{
  switch(s.draw(7))
  {
  case 0: run<IntKey, Hash<int, int>, int>(s, 1000); break;
  case 1: run<NegKey, Hash<int, int>, int>(s, 1000); break;
  case 2: run<LongKey, Hash<int64_t, int>, int>(s, 1000); break;
  case 3: run<ShortKey, Hash<uint16_t, int>, int>(s, 255); break;
  case 4: run<IntKey, Hash<int>, int>(s, 1000); break;
  case 5: run<PairKey, Hash<std::pair<int, short>, int>, int>(s, 1000); break;
  case 6: run<TupKey, Hash<std::tuple<int64_t, int, int>, int, ARRAY_SAFE>, int>(s, 1000); break;
  }
}
PROP(collisions, 1.5, pbt::LEAKCHECK, "history of >=6 operations reaching >=3 entries under a degenerate hash function")
{
  switch(s.draw(6))
  {
  case 0: run<IntKey, Hash<int, int, ARRAY_SIMPLE, &bad1<int>, &eqk<int>>, int>(s, 1000); break;
  case 1: run<IntKey, Hash<int, int, ARRAY_SIMPLE, &bad4<int>, &eqk<int>>, int>(s, 1000); break;
  case 2: run<IntKey, Hash<int, int, ARRAY_SIMPLE, &low0<int>, &eqk<int>>, int>(s, 1000); break;
  case 3: run<IntKey, Hash<int, void, ARRAY_SIMPLE, &ident<int>, &eqk<int>>, int>(s, 1000); break;
  case 4: run<IntKey, Hash<int, void, ARRAY_SIMPLE, &bad4<int>, &eqk<int>>, int>(s, 1000); break;
  case 5: run<RelocKey, Hash<Reloc, Reloc, ARRAY_CONSTRUCT, &bad4<Reloc>, &eqk<Reloc>>, Reloc>(s, 1000); break;
  }
}
PROP(lifetimes, 1.5, pbt::LEAKCHECK, "history of >=6 operations reaching >=3 entries whose keys or values own resources")
{
  switch(s.draw(5))
  {
  case 0: run<RelocKey, Hash<Reloc, int, ARRAY_CONSTRUCT, &ident<Reloc>, &eqk<Reloc>>, int>(s, 1000); break;
  case 1: run<SafeKey, Hash<Safe, Safe, ARRAY_SAFE, &ident<Safe>, &eqk<Safe>>, Safe>(s, 1000); break;
  case 2: run<IntKey, Hash<int, MoveOnly, ARRAY_MOVE>, MoveOnly>(s, 1000); break;
  case 3: run<SafeKey, Hash<Safe, void, ARRAY_SAFE, &bad4<Safe>, &eqk<Safe>>, int>(s, 1000); break;
  case 4: run<IntKey, Hash<int, Safe, ARRAY_SAFE>, Safe>(s, 1000); break;
  }
}
PROP(strings, 1.5, pbt::LEAKCHECK, "history of >=6 operations reaching >=3 entries with string keys (case sensitive or not)")
{
  switch(s.draw(11))
  {
  case 0: run<PtrKey<false>, Hash<const char*, int>, int>(s, 1000); break;
  case 1: run<StdKey<false>, Hash<std::string, int, ARRAY_SAFE>, int>(s, 1000); break;
  case 2: run<BssKey<false>, Hash<Str, Reloc, ARRAY_SAFE>, Reloc>(s, 1000); break;
  case 3: run<PtrKey<true>, HashIns<const char*, int>, int>(s, 1000); break;
  case 4: run<StdKey<true>, HashIns<std::string, int, ARRAY_SAFE>, int>(s, 1000); break;
  case 5: run<BssKey<true>, HashIns<Str, int, ARRAY_SAFE>, int>(s, 1000); break;
  case 7: run<WPtrKey<false>, Hash<const wchar_t*, int>, int>(s, 1000); break;
  case 8: run<WPtrKey<true>, HashIns<const wchar_t*, int>, int>(s, 1000); break;
  case 9: run<WStdKey<false>, Hash<std::wstring, int, ARRAY_SAFE>, int>(s, 1000); break;
  case 10: run<WStdKey<true>, HashIns<std::wstring, void, ARRAY_SAFE>, int>(s, 1000); break;
  case 6: run<BssKey<false>, Hash<Str, void, ARRAY_SAFE>, int>(s, 1000); break;
  }
}
