// Every container, vector, matrix and shape that can be serialized comes back as it was, through every format and any chain of formats.
// LIBS: UBJSON.cpp XML.cpp
// ASSUME: no NaN or infinity; keys are names every format accepts and distinct; texts contain no NUL; values are read into freshly constructed objects; XML carries no nested arrays and no texts of white space only
#include <map>
#include <set>
#include <algorithm>
#include "tracked.h"
#include "doc.h"
#include "bss-util/JSON.h"
#include "bss-util/UBJSON.h"
#include "bss-util/XML.h"
#include "bss-util/TOML.h"
#include "bss-util/DynArray.h"
#include "bss-util/CompactArray.h"
#include "bss-util/Stack.h"
#include "bss-util/RandomQueue.h"
#include "bss-util/BinaryHeap.h"
#include "bss-util/PriorityQueue.h"
#include "bss-util/ArraySort.h"
#include "bss-util/Map.h"
#include "bss-util/Hash.h"
#include "bss-util/Variant.h"
#include "bss-util/vector.h"
#include "bss-util/Geometry.h"
#include <sstream>
using namespace bss;
using pbt::Src;
enum { JSON = 1, UBJ = 2, XML = 4, TOML = 8, FLAT = 15, DEEP = 11 };

template<class V> struct Box
{
  V v; int64_t after = 0; Str tail;
  template<typename Engine> void Serialize(Serializer<Engine>& s, const char*) { s.template EvaluateType<Box>(GenPair("v", v), GenPair("after", after), GenPair("tail", tail)); }
};
template<class V> struct Box2 // the value after the plain fields: tables of TOML and elements of XML follow them
{
  V v; int64_t after = 0; Str tail;
  template<typename Engine> void Serialize(Serializer<Engine>& s, const char*) { s.template EvaluateType<Box2>(GenPair("after", after), GenPair("tail", tail), GenPair("v", v)); }
};
static const char* fname(int f) { return f == JSON ? "JSON" : f == UBJ ? "UBJSON" : f == XML ? "XML" : "TOML"; }

template<class B> static std::string through(Src& s, int f, const B& a, B& b)
{
  std::stringstream ss; std::string t;
  switch(f)
  {
  case JSON: WriteJSON(a, ss, s.draw(3)); t = ss.str(); ParseJSON(b, ss); break;
  case UBJ: { Serializer<UBJSONEngine> e; e.template Serialize<B>(a, ss, 0); t = ss.str(); Serializer<UBJSONEngine> p; p.template Parse<B>(b, ss, 0); break; }
  case XML: { Serializer<XMLEngine> e; e.engine.pretty = s.boolean(); e.template Serialize<B>(a, ss, "box"); t = ss.str(); Serializer<XMLEngine> p; p.template Parse<B>(b, ss, "box"); break; }
  case TOML: WriteTOML(a, ss); t = ss.str(); ParseTOML(b, ss); break;
  }
  return t;
}
// fill makes the value, check says what differs from what was put in (or null)
template<class B, class F, class C> static void trip(Src& s, int formats, F& fill, C& check)
{
  std::unique_ptr<B> a(new B()); fill(a->v); a->after = doc::integer(s); if(a->after > INT64_MAX / 2 || a->after < -(INT64_MAX / 2)) a->after /= 4; a->tail = "end";
  int64_t after = a->after; CHECK(!check(a->v), "generator: %s", check(a->v));
  int n = 1 + (int)s.draw(3); std::string path;
  for(int i = 0; i < n; ++i)
  {
    int f; do f = 1 << s.draw(4); while(!(formats & f));
    std::unique_ptr<B> b(new B()); std::string t = through(s, f, *a, *b); path += std::string(path.empty() ? "" : ">") + fname(f);
    s.note("%s: %s", fname(f), doc::show(t, 300).c_str());
    const char* e = check(b->v); CHECK(!e, "%s differs after %s: %s", e, path.c_str(), doc::show(t, 600).c_str());
    CHECK(b->after == after && b->tail == "end", "the fields beside the value changed in %s: %s", path.c_str(), doc::show(t, 600).c_str());
    a = std::move(b);
  }
}
template<class V, class F, class C> static void rt(Src& s, int formats, F fill, C check) { if(s.boolean()) trip<Box<V>>(s, formats, fill, check); else trip<Box2<V>>(s, formats, fill, check); }

static std::string text(Src& s) { std::string t = doc::str(s); for(unsigned char c : t) if(c > 32) return t; return std::string(); }
static std::string key(Src& s) { static const char* c = "abcXYZ019_"; std::string k(1, c[s.draw(6)]); while(k.size() < 8 && s.more(3)) k += c[s.draw(10)]; return k; }
static int integer(Src& s) { return s.boolean() ? (int)s.draw(40) - 20 : (int)doc::integer(s); }
template<class T> static T real(Src& s) { double d = doc::real(s); if(sizeof(T) == 4 && (fabs(d) > 3e38 || (d != 0 && fabs(d) < 2e-38))) d = 0.25; return (T)d; }
template<> int real<int>(Src& s) { return integer(s); }
static std::vector<int> ints(Src& s) { std::vector<int> v; while(v.size() < 40 && s.more(5)) v.push_back(integer(s)); return v; }
static std::vector<std::string> texts(Src& s) { std::vector<std::string> v; while(v.size() < 10 && s.more(3)) v.push_back(text(s)); return v; }
static std::map<std::string, int> dict(Src& s) { std::map<std::string, int> m; while(m.size() < 12 && s.more(4)) m[key(s)] = integer(s); return m; }
template<class A> static const char* seq(A& a, size_t len, const std::vector<int>& m) { if(len != m.size()) return "length"; for(size_t i = 0; i < len; ++i) if(a.begin()[i] != m[i]) return "an element"; return 0; }
template<class A> static const char* seqs(A& a, size_t len, const std::vector<std::string>& m) { if(len != m.size()) return "length"; for(size_t i = 0; i < len; ++i) if(m[i] != a.begin()[i].c_str()) return "a text"; return 0; }

PROP(sequences, 2, pbt::LEAKCHECK, "a sequence of >=2 elements")
{
  std::vector<int> m = ints(s); std::vector<std::string> ms = texts(s);
  int k = (int)s.draw(9); s.nontrivial(k == 1 || k == 5 ? ms.size() >= 2 : m.size() >= 2);
  switch(k)
  {
  case 0: rt<Array<int>>(s, FLAT, [&](auto& v) { for(int x : m) v.Add(x); }, [&](auto& v) { return seq(v, v.Capacity(), m); }); break;
  case 1: rt<Array<Str, size_t, ARRAY_SAFE>>(s, FLAT, [&](auto& v) { for(auto& x : ms) v.Add(Str(x.c_str())); }, [&](auto& v) { return seqs(v, v.Capacity(), ms); }); break;
  case 2: rt<CompactArray<int, 4>>(s, FLAT, [&](auto& v) { for(int x : m) v.Add(x); }, [&](auto& v) { return seq(v, v.Length(), m); }); break;
  case 3: rt<Stack<int>>(s, FLAT, [&](auto& v) { for(int x : m) v.Push(x); }, [&](auto& v) -> const char* { if(v.Length() != m.size()) return "depth"; auto c = v; for(size_t i = m.size(); i-- > 0;) if(c.Pop() != m[i]) return "an element"; return 0; }); break;
  case 4: rt<DynArray<short, uint32_t>>(s, FLAT, [&](auto& v) { for(int& x : m) { x = (short)x; v.Add((short)x); } }, [&](auto& v) { return seq(v, v.Length(), m); }); break;
  case 5: rt<DynArray<Str, size_t, ARRAY_SAFE>>(s, FLAT, [&](auto& v) { for(auto& x : ms) v.Add(Str(x.c_str())); }, [&](auto& v) { return seqs(v, v.Length(), ms); }); break;
  case 6: rt<DynArray<bool>>(s, FLAT, [&](auto& v) { for(int x : m) v.Add(x & 1); }, [&](auto& v) -> const char* { if(v.Length() != m.size()) return "length"; for(size_t i = 0; i < m.size(); ++i) if((bool)v[i] != (bool)(m[i] & 1)) return "a bit"; return 0; }); break;
  case 7: rt<DynArray<DynArray<int>, size_t, ARRAY_SAFE>>(s, DEEP, [&](auto& v) { for(size_t i = 0; i < m.size(); i += 3) { DynArray<int> d; for(size_t j = i; j < i + 3 && j < m.size(); ++j) if(m[j] & 1) d.Add(m[j]); v.Add(d); } },
    [&](auto& v) -> const char* { if(v.Length() != (m.size() + 2) / 3) return "length"; for(size_t i = 0; i < m.size(); i += 3) { std::vector<int> e; for(size_t j = i; j < i + 3 && j < m.size(); ++j) if(m[j] & 1) e.push_back(m[j]); if(auto r = seq(v[i / 3], v[i / 3].Length(), e)) return r; } return 0; }); break;
  case 8: rt<std::vector<int>>(s, FLAT, [&](auto& v) { v = m; }, [&](auto& v) { return v == m ? nullptr : "the vector"; }); break;
  }
}
PROP(bags, 2, pbt::LEAKCHECK, "a collection of >=2 elements")
{
  std::vector<int> m = ints(s); std::vector<std::string> ms = texts(s);
  int k = (int)s.draw(7); s.nontrivial(k >= 5 ? ms.size() >= 2 : m.size() >= 2);
  std::vector<int> so = m; std::sort(so.begin(), so.end()); std::set<int> se(m.begin(), m.end()); std::set<std::string> st(ms.begin(), ms.end());
  switch(k)
  {
  case 0: rt<RandomQueue<int>>(s, FLAT, [&](auto& v) { for(int x : m) v.Push(x); }, [&](auto& v) -> const char* { if(v.Length() != m.size()) return "length"; std::multiset<int> a(m.begin(), m.end()), b(v.begin(), v.begin() + v.Length()); return a == b ? nullptr : "the elements"; }); break;
  case 1: rt<BinaryHeap<int>>(s, FLAT, [&](auto& v) { for(int x : m) v.Insert(x); }, [&](auto& v) -> const char* { auto c = v; for(size_t i = so.size(); i-- > 0;) { if(c.Empty() || c.Peek() != so[i]) return "the order of extraction"; c.Pop(); } return c.Empty() ? nullptr : "length"; }); break;
  case 2: rt<BinaryHeap<int, size_t, CompTInv<int>>>(s, FLAT, [&](auto& v) { for(int x : m) v.Insert(x); }, [&](auto& v) -> const char* { auto c = v; for(size_t i = 0; i < so.size(); ++i) { if(c.Empty() || c.Peek() != so[i]) return "the order of extraction"; c.Pop(); } return c.Empty() ? nullptr : "length"; }); break;
  case 3: rt<ArraySort<int>>(s, FLAT, [&](auto& v) { for(int x : m) v.Insert(x); }, [&](auto& v) { return seq(v, v.Length(), so); }); break;
  case 4: rt<Hash<int>>(s, FLAT, [&](auto& v) { for(int x : m) v.Insert(x); }, [&](auto& v) -> const char* { if((size_t)v.Length() != se.size()) return "length"; for(int x : se) if(!v.Exists(x)) return "a key"; return 0; }); break;
  case 5: rt<Hash<Str, void, ARRAY_SAFE>>(s, FLAT, [&](auto& v) { for(auto& x : ms) v.Insert(Str(x.c_str())); }, [&](auto& v) -> const char* { if((size_t)v.Length() != st.size()) return "length"; for(auto& x : st) if(!v.Exists(Str(x.c_str()))) return "a key"; return 0; }); break;
  case 6: rt<ArraySort<Str, CompT<Str>, size_t, ARRAY_SAFE>>(s, FLAT, [&](auto& v) { for(auto& x : ms) v.Insert(Str(x.c_str())); }, [&](auto& v) -> const char* { if(v.Length() != ms.size()) return "length"; for(size_t i = 0; i < v.Length(); ++i) { if(i && v[i] < v[i - 1]) return "the order"; } std::multiset<std::string> a(ms.begin(), ms.end()), b; for(size_t i = 0; i < v.Length(); ++i) b.insert(v[i].c_str()); return a == b ? nullptr : "the texts"; }); break;
  }
}
PROP(maps, 2, pbt::LEAKCHECK, "a map of >=2 keys")
{
  std::map<std::string, int> m = dict(s); s.nontrivial(m.size() >= 2);
  std::map<std::string, std::string> mt; std::map<std::string, std::vector<int>> md; int k = (int)s.draw(7);
  if(k == 4) for(auto& p : m) mt[p.first] = text(s); if(k == 5) for(auto& p : m) md[p.first] = ints(s);
  switch(k)
  {
  case 0: rt<Map<Str, int, CompT<Str>, size_t, ARRAY_SAFE>>(s, FLAT, [&](auto& v) { for(auto& p : m) v.Insert(Str(p.first.c_str()), p.second); }, [&](auto& v) -> const char* { if(v.Length() != m.size()) return "length"; size_t i = 0; for(auto& p : m) { if(p.first != v.KeyIndex(i).c_str()) return "a key or the order"; if(v.DataIndex(i) != p.second) return "a value"; ++i; } return 0; }); break;
  case 1: rt<PriorityQueue<Str, int, CompT<Str>, size_t, ARRAY_SAFE>>(s, FLAT, [&](auto& v) { for(auto& p : m) v.Push(Str(p.first.c_str()), p.second); }, [&](auto& v) -> const char* { if(v.Length() != m.size()) return "length"; auto c = v; for(auto p = m.rbegin(); p != m.rend(); ++p) { auto t = c.Pop(); if(p->first != t.first.c_str()) return "the order of extraction"; if(t.second != p->second) return "a value"; } return 0; }); break;
  case 2: rt<DynArray<std::pair<Str, int>, size_t, ARRAY_SAFE>>(s, FLAT, [&](auto& v) { for(auto& p : m) v.Add(std::pair<Str, int>(Str(p.first.c_str()), p.second)); }, [&](auto& v) -> const char* { if(v.Length() != m.size()) return "length"; size_t i = 0; for(auto& p : m) { if(p.first != v[i].first.c_str() || v[i].second != p.second) return "a pair"; ++i; } return 0; }); break;
  case 3: rt<Hash<Str, int, ARRAY_SAFE>>(s, FLAT, [&](auto& v) { for(auto& p : m) v.Insert(Str(p.first.c_str()), p.second); }, [&](auto& v) -> const char* { if((size_t)v.Length() != m.size()) return "length"; for(auto& p : m) { auto i = v.Iterator(Str(p.first.c_str())); if(!v.ExistsIter(i)) return "a key"; if(v.Value(i) != p.second) return "a value"; } return 0; }); break;
  case 4: rt<Hash<Str, Str, ARRAY_SAFE>>(s, FLAT, [&](auto& v) { for(auto& p : mt) v.Insert(Str(p.first.c_str()), Str(p.second.c_str())); }, [&](auto& v) -> const char* { if((size_t)v.Length() != mt.size()) return "length"; for(auto& p : mt) { auto i = v.Iterator(Str(p.first.c_str())); if(!v.ExistsIter(i)) return "a key"; if(p.second != v.Value(i).c_str()) return "a value"; } return 0; }); break;
  case 5: rt<Hash<Str, DynArray<int>, ARRAY_SAFE>>(s, DEEP, [&](auto& v) { for(auto& p : md) { DynArray<int> d; for(int x : p.second) d.Add(x); v.Insert(Str(p.first.c_str()), d); } }, [&](auto& v) -> const char* { if((size_t)v.Length() != md.size()) return "length"; for(auto& p : md) { auto i = v.Iterator(Str(p.first.c_str())); if(!v.ExistsIter(i)) return "a key"; if(auto e = seq(v.Value(i), v.Value(i).Length(), p.second)) return e; } return 0; }); break;
  case 6: rt<Array<std::pair<Str, int>, size_t, ARRAY_SAFE>>(s, FLAT, [&](auto& v) { for(auto& p : m) v.Add(std::pair<Str, int>(Str(p.first.c_str()), p.second)); }, [&](auto& v) -> const char* { if(v.Capacity() != m.size()) return "length"; size_t i = 0; for(auto& p : m) { if(p.first != v[i].first.c_str() || v[i].second != p.second) return "a pair"; ++i; } return 0; }); break;
  }
}
// plain aggregates of n numbers of type T
template<class V, class T, size_t n = sizeof(V) / sizeof(T)> static void plain(Src& s, int formats)
{
  static_assert(sizeof(V) >= n * sizeof(T), "layout"); T m[n]; size_t nz = 0; for(auto& x : m) { x = real<T>(s); nz += x != 0; }
  s.nontrivial(nz >= 2);
  rt<V>(s, formats, [&](auto& v) { memcpy((void*)&v, m, sizeof(m)); }, [&](auto& v) -> const char* { T g[n]; memcpy(g, (void*)&v, sizeof(g)); for(size_t i = 0; i < n; ++i) if(!(g[i] == m[i])) return "a component"; return 0; });
}
PROP(vectors, 1.5, pbt::LEAKCHECK, ">=2 components that are not zero")
{
  switch(s.draw(12))
  {
  case 0: plain<Vector<float, 2>, float>(s, FLAT); break; case 1: plain<Vector<double, 3>, double>(s, FLAT); break; case 2: plain<Vector<float, 4>, float>(s, FLAT); break; case 3: plain<Vector<int, 5>, int>(s, FLAT); break;
  case 4: plain<Matrix<float, 2, 2>, float>(s, DEEP); break; case 5: plain<Matrix<float, 3, 3>, float>(s, DEEP); break; case 6: plain<Matrix<double, 4, 4>, double>(s, DEEP); break; case 7: plain<Matrix<int, 2, 3>, int>(s, DEEP); break;
  case 8: plain<Vector<float, 3>, float>(s, FLAT); break; case 9: plain<Vector<int, 2>, int>(s, FLAT); break; case 10: plain<Matrix<float, 4, 4>, float>(s, DEEP); break; case 11: plain<Matrix<float, 3, 4>, float>(s, DEEP); break;
  }
}
PROP(shapes, 1.5, pbt::LEAKCHECK, ">=2 components that are not zero")
{
  switch(s.draw(11))
  {
  case 0: plain<Circle<float>, float>(s, FLAT); break; case 1: plain<Sphere<double>, double>(s, FLAT); break; case 2: plain<NSphere<float, 4>, float, 5>(s, FLAT); break;
  case 3: plain<Line<float>, float>(s, DEEP); break; case 4: plain<Line3d<double>, double>(s, DEEP); break; case 5: plain<LineN<float, 4>, float>(s, DEEP); break;
  case 6: plain<Rect<float>, float>(s, FLAT); break; case 7: plain<Triangle<float>, float>(s, DEEP); break; case 8: plain<Ellipse<double>, double>(s, FLAT); break; case 9: plain<CircleSector<float>, float>(s, FLAT); break;
  case 10: { std::vector<Vector<float, 2>> p; while(p.size() < 8 && s.more(4)) p.push_back(Vector<float, 2>(real<float>(s), real<float>(s))); s.nontrivial(p.size() >= 2);
    rt<Polygon<float>>(s, DEEP, [&](auto& v) { if(!p.empty()) v.SetVertices(p.data(), (uint16_t)p.size()); }, [&](auto& v) -> const char* { auto& a = v.GetArray(); if(a.Capacity() != p.size()) return "the number of vertices"; for(size_t i = 0; i < p.size(); ++i) if(a[i].x != p[i].x || a[i].y != p[i].y) return "a vertex"; return 0; }); break; }
  }
}
PROP(variants, 1, pbt::LEAKCHECK, "a variant holding something else than its first alternative's default")
{
  typedef Variant<int, Str, double, DynArray<int>> V; int k = (int)s.draw(4); int i = integer(s); std::string t = text(s); double d = real<double>(s); std::vector<int> m = ints(s); s.nontrivial(k > 0);
  rt<V>(s, k == 3 ? DEEP : FLAT, [&](auto& v) { switch(k) { case 0: v = i; break; case 1: v = Str(t.c_str()); break; case 2: v = d; break; case 3: { DynArray<int> a; for(int x : m) a.Add(x); v = a; break; } } },
    [&](auto& v) -> const char* { if(v.tag() != k) return "the alternative"; switch(k) { case 0: return v.template get<int>() == i ? nullptr : "the integer"; case 1: return t == v.template get<Str>().c_str() ? nullptr : "the text"; case 2: return v.template get<double>() == d ? nullptr : "the number"; default: return seq(v.template get<DynArray<int>>(), v.template get<DynArray<int>>().Length(), m); } });
}
