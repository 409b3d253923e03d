// Disjoint sets and minimum spanning forests.
#include "tracked.h"
#include "bss-util/DisjointSet.h"
#include <map>
#include <set>
using namespace bss;
using namespace trk;

template<class T> static void ds(pbt::Src& s)
{
  typedef DisjointSet<T> D; size_t n = s.draw(40); std::unique_ptr<D> d(new D((T)n)); std::vector<size_t> cls(n); for(size_t i = 0; i < n; ++i) cls[i] = i; size_t sets = n; int ops = 0, unions = 0;
  while(s.more())
  {
    if(n == 0) break;
    size_t a = s.draw(n), b = s.draw(n);
    switch(s.pick({ 8, 4, 3, 2, 2, 1, 1, 2 }))
    {
    case 0: { T ra = d->Find((T)a), rb = d->Find((T)b); if(cls[a] == cls[b]) { CHECK(ra == rb, "Find differs inside one set"); CHECK(!d->Union(ra, rb), "Union of a set with itself succeeded"); break; } CHECK(d->Union(ra, rb), "Union failed"); size_t from = cls[b], to = cls[a]; for(auto& c : cls) if(c == from) c = to; --sets; ++unions; s.note("union %zu %zu", a, b); break; }
    case 1: { T ra = d->Find((T)a); CHECK(ra < n && cls[ra] == cls[a] && d->IsSetName(ra), "Find(%zu) gave %zu", a, (size_t)ra); break; }
    case 2: { size_t c = std::count(cls.begin(), cls.end(), cls[a]); CHECK((size_t)d->NumElements((T)a) == c, "NumElements(%zu) %zu expected %zu", a, (size_t)d->NumElements((T)a), c); CHECK(d->NumElements((T)n) == (typename std::make_signed<T>::type)-1, "NumElements out of range"); break; }
    case 3: { size_t c = std::count(cls.begin(), cls.end(), cls[a]); std::set<size_t> e, g; for(size_t i = 0; i < n; ++i) if(cls[i] == cls[a]) e.insert(i); auto p = d->GetElements((T)a); CHECK(p.get(), "GetElements"); for(size_t i = 0; i < c; ++i) g.insert(p[i]); CHECK(g == e, "GetElements(%zu) wrong", a); CHECK((size_t)d->GetElements((T)a, (T*)0) == c, "GetElements count"); break; }
    case 4: if(s.boolean() && n < 100) { size_t k = s.draw(6); d->AddSets((T)k); for(size_t i = 0; i < k; ++i) cls.push_back(n + i); for(auto& c : cls) (void)c; size_t o = n; n += k; sets += k; for(size_t i = o; i < n; ++i) { size_t u = 0; while(std::count(cls.begin(), cls.end(), u + 1000)) ++u; cls[i] = u + 1000; } s.note("%zu sets added", k); s.label("sets added"); }
      else { std::unique_ptr<D> o; if(s.boolean()) o.reset(new D(*d)); else { o.reset(new D((T)s.draw(60))); for(size_t i = 0; i < 5 && o->Length() > 1; ++i) o->Union((T)s.draw(o->Length()), (T)s.draw(o->Length())); *o = *d; if(s.chance(1, 4)) *o = *o; } CHECK(d->Length() == n && d->NumSets() == sets, "the copied set changed"); if(s.boolean()) { for(size_t i = 0; i + 1 < n; ++i) o->Union(o->Find((T)i), o->Find((T)(i + 1))); } else d = std::move(o); s.label("copied"); } break;
    case 5: { std::unique_ptr<D> o; if(s.boolean()) o.reset(new D(std::move(*d))); else { o.reset(new D((T)3)); *o = std::move(*d); } CHECK(d->NumSets() == 0, "moved-from set counts %zu sets", (size_t)d->NumSets()); d = std::move(o); break; }
    case 6: if(s.chance(1, 4)) { d->Reset(); for(size_t i = 0; i < n; ++i) cls[i] = i; sets = n; } break;
    case 7: { if(!d->IsSetName((T)a)) CHECK(!d->Union((T)a, (T)b) && !d->Union((T)b, (T)a), "Union accepted an element that is not a set name"); CHECK(!d->Union((T)n, d->Find((T)a)), "Union accepted an out-of-range name"); break; }
    }
    ++ops; CHECK(d->Length() == n && d->NumSets() == sets, "NumSets %zu expected %zu", (size_t)d->NumSets(), sets);
    size_t names = 0; for(size_t i = 0; i < n; ++i) names += d->IsSetName((T)i); CHECK(names == sets, "%zu set names for %zu sets", names, sets);
  }
  std::map<size_t, size_t> rep; for(size_t i = 0; i < n; ++i) { size_t r = d->Find((T)i); auto it = rep.find(cls[i]); if(it == rep.end()) rep[cls[i]] = r; else CHECK(it->second == r, "elements of one set have different names"); } std::set<size_t> rs; for(auto& p : rep) rs.insert(p.second); CHECK(rs.size() == rep.size(), "two sets share a name");
  s.nontrivial(ops >= 4 && unions >= 2);
}
PROP(sets, 1, pbt::LEAKCHECK, "history of >=4 operations with >=2 unions") { switch(s.draw(3)) { case 0: ds<size_t>(s); break; case 1: ds<uint32_t>(s); break; case 2: ds<uint16_t>(s); break; } }
PROP(mst, 1, pbt::LEAKCHECK, "graph with >=3 vertices and >=2 edges")
{
  typedef uint32_t T; T n = (T)(1 + s.draw(20)); struct E { int w; T a, b; }; std::vector<E> es; while(s.more()) { E e{ (int)s.draw(30), (T)s.draw(n), (T)s.draw(n) }; es.push_back(e); }
  std::stable_sort(es.begin(), es.end(), [](const E& a, const E& b) { return a.w < b.w; }); std::vector<std::pair<T, T>> in; for(auto& e : es) in.push_back({ e.a, e.b });
  auto r = DisjointSet<T>::MinSpanningTree(n, in.begin(), in.end());
  // weight of the forest: match result edges greedily against the cheapest unused input edge with those endpoints
  std::vector<int> cls(n); auto reset = [&] { for(T i = 0; i < n; ++i) cls[i] = i; }; auto uni = [&](T a, T b) { if(cls[a] == cls[b]) return false; int f = cls[b], t = cls[a]; for(auto& c : cls) if(c == f) c = t; return true; };
  // Prim, as an independent oracle for the forest weight
  long best = 0; size_t cnt = 0; { std::vector<bool> in2(n); for(T st = 0; st < n; ++st) { if(in2[st]) continue; in2[st] = true; for(;;) { int bw = 1 << 30; T bv = 0; for(auto& e : es) { if(in2[e.a] != in2[e.b] && e.w < bw) { bool conn = true; bw = e.w; bv = in2[e.a] ? e.b : e.a; (void)conn; } } if(bw == 1 << 30) break; in2[bv] = true; best += bw; ++cnt; } } }
  reset(); long w = 0; for(size_t i = 0; i < r.Capacity(); ++i) { auto p = r[i]; int ew = 1 << 30; for(auto& e : es) if(e.a == p.first && e.b == p.second) ew = std::min(ew, e.w); CHECK(ew != 1 << 30, "result edge is not an input edge"); w += ew; CHECK(uni(p.first, p.second), "result contains a cycle"); }
  CHECK(r.Capacity() == cnt, "forest has %zu edges expected %zu", (size_t)r.Capacity(), cnt); CHECK(w == best, "forest weighs %ld, minimum %ld", w, best);
  s.note("%u vertices, %zu edges", n, es.size()); s.nontrivial(n >= 3 && es.size() >= 2); if(cnt + 1 < n) s.label("disconnected");
}
