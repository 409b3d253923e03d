// A typed record shared by the serialization harnesses: every kind of field the serializer classifies, its generator, equality and document image.
#pragma once
#include "doc.h"
#include "bss-util/Serializer.h"
#include "bss-util/DynArray.h"
#include "bss-util/Hash.h"
#include "bss-util/vector.h"
#include <algorithm>
namespace rec {
  using namespace bss;
  using doc::Doc;
  enum Color : uint8_t { RED, GREEN = 5, BLUE = 200 };
  struct In
  {
    int64_t x = 0; Str name; DynArray<In, uint32_t, ARRAY_SAFE> kids; std::array<int, 2> ia = { 0, 0 };
    template<typename Engine> void Serialize(Serializer<Engine>& s, const char*) { s.template EvaluateType<In>(GenPair("x", x), GenPair("name", name), GenPair("kids", kids), GenPair("ia", ia)); }
  };
  struct Rec
  {
    int64_t a = 0; uint64_t u = 0; uint16_t b = 0; int8_t c = 0; uint8_t d = 0; int16_t sh = 0; uint32_t ui = 0; double e = 0; float f = 0; Str str; bool t = false; Color col = RED; DynArray<uint16_t> nums; std::vector<double> vd; DynArray<Str, uint16_t, ARRAY_SAFE> strs; DynArray<In, uint32_t, ARRAY_SAFE> arr; In nested; float fix[3] = { 0, 0, 0 }; std::array<int, 2> ia = { 0, 0 }; Hash<int, int> hash; Matrix<int, 2, 3> mat = {}; std::tuple<short, Str, double> tup = { (short)0, Str(), 0.0 }; DynArray<bool> bits; Hash<Str, Str, ARRAY_SAFE> smap; DynArray<DynArray<int, size_t, ARRAY_SAFE>, size_t, ARRAY_SAFE> deep; std::vector<uint8_t> raw; DynArray<uint8_t> raw2; std::vector<std::vector<int>> vv; std::array<int8_t, 3> i8 = { 0, 0, 0 };
    Rec() { for(auto& x : mat.v) for(auto& y : x) y = 0; }
    template<typename Engine> void Serialize(Serializer<Engine>& s, const char*)
    {
      s.template EvaluateType<Rec>(GenPair("a", a), GenPair("u", u), GenPair("b", b), GenPair("c", c), GenPair("d", d), GenPair("sh", sh), GenPair("ui", ui), GenPair("e", e), GenPair("f", f), GenPair("str", str), GenPair("t", t), GenPair("col", col), GenPair("nums", nums), GenPair("vd", vd), GenPair("strs", strs), GenPair("arr", arr), GenPair("nested", nested), GenPair("fix", fix), GenPair("ia", ia), GenPair("hash", hash), GenPair("mat", mat), GenPair("tup", tup), GenPair("bits", bits), GenPair("smap", smap), GenPair("deep", deep), GenPair("raw", raw), GenPair("raw2", raw2), GenPair("vv", vv), GenPair("i8", i8));
    }
  };
  // what the generators may produce; formats differ in what text they can carry
  struct Opt { std::function<std::string(pbt::Src&)> str = [](pbt::Src& s) { return doc::str(s); }; std::function<double(pbt::Src&)> real = [](pbt::Src& s) { return doc::real(s); }; std::function<std::string(pbt::Src&)> key; bool smap = true, deep = true, hash = true, tup = true, bits = true; int64_t imax = INT64_MAX; };
  template<class T> T num(pbt::Src& s) { switch(s.draw(4)) { case 0: return (T)(s.draw(10)); case 1: return (T)doc::integer(s); case 2: { T t[] = { std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), (T)1, (T)-1 }; return t[s.draw(4)]; } default: return (T)s.bits64(); } }
  inline float flt(pbt::Src& s, const Opt& o) { double d = o.real(s); return fabs(d) > 3e38 || (d != 0 && fabs(d) < 2e-38) ? 0.25f : (float)d; }
  inline In inner(pbt::Src& s, const Opt& o, int depth) { In r; r.x = num<int64_t>(s); if(r.x > o.imax || r.x < -o.imax) r.x %= o.imax; r.name = o.str(s); r.ia = { num<int>(s), num<int>(s) }; if(depth > 0) while(s.more(2) && r.kids.Length() < 4) r.kids.Add(inner(s, o, depth - 1)); return r; }
  inline Rec gen(pbt::Src& s, const Opt& o)
  {
    Rec r; bool on[8]; for(auto& x : on) x = s.chance(2, 3);
    if(on[0]) { r.a = num<int64_t>(s); r.u = num<uint64_t>(s); r.b = num<uint16_t>(s); r.c = num<int8_t>(s); r.d = num<uint8_t>(s); r.sh = num<int16_t>(s); r.ui = num<uint32_t>(s); if(o.imax != INT64_MAX) { r.a %= o.imax; r.u %= o.imax; } }
    if(on[1]) { r.e = o.real(s); r.f = flt(s, o); r.t = s.boolean(); static const Color cs[] = { RED, GREEN, BLUE }; r.col = cs[s.draw(3)]; }
    if(on[2]) { r.str = o.str(s); while(s.more(2) && r.strs.Length() < 6) r.strs.Add(Str(o.str(s))); }
    if(on[3]) { while(s.more(4)) r.nums.Add(num<uint16_t>(s)); while(s.more(3)) r.vd.push_back(o.real(s)); if(o.bits) while(s.more(8)) r.bits.Add(s.boolean()); }
    if(on[4]) { r.nested = inner(s, o, 2); while(s.more(2) && r.arr.Length() < 4) r.arr.Add(inner(s, o, 1)); }
    if(on[5]) { for(auto& x : r.fix) x = flt(s, o); r.ia = { num<int>(s), num<int>(s) }; for(auto& x : r.mat.v) for(auto& y : x) y = num<int>(s); }
    if(on[6] && o.hash) { while(s.more(3)) r.hash.Insert(num<int>(s), num<int>(s)); if(o.smap) while(s.more(2)) { std::string k = o.key ? o.key(s) : o.str(s); r.smap.Insert(Str(k), Str(o.str(s))); } }
    if(on[7]) { if(o.tup) r.tup = std::make_tuple(num<short>(s), Str(o.str(s)), o.real(s)); if(o.deep) while(s.more(2)) { DynArray<int, size_t, ARRAY_SAFE> d; while(s.more(2)) d.Add(num<int>(s)); r.deep.Add(d); } if(o.deep) while(s.more(2)) { r.vv.emplace_back(); while(s.more(2)) r.vv.back().push_back(num<int>(s)); } while(s.more(3)) r.raw.push_back(num<uint8_t>(s)); while(s.more(3)) r.raw2.Add(num<uint8_t>(s)); for(auto& x : r.i8) x = num<int8_t>(s); }
    return r;
  }
  inline const char* eq(const In& a, const In& b) { if(a.x != b.x) return "x"; if(a.name != b.name) return "name"; if(a.ia != b.ia) return "ia"; if(a.kids.Length() != b.kids.Length()) return "kids length"; for(size_t i = 0; i < a.kids.Length(); ++i) if(const char* e = eq(a.kids[i], b.kids[i])) return e; return 0; }
  template<class H> bool heq(const H& a, const H& b) { if(a.Length() != b.Length()) return false; for(auto it = a.begin(); it != a.end(); ++it) { auto k = b.Iterator(std::get<0>(*it)); if(!b.ExistsIter(k) || !(b.Value(k) == std::get<1>(*it))) return false; } return true; }
  // name of the first field that differs, or null
  inline const char* eq(const Rec& a, const Rec& b)
  {
#define F(x) if(!(a.x == b.x)) return #x;
    F(a) F(u) F(b) F(c) F(d) F(sh) F(ui) F(e) F(f) F(str) F(t) F(col) F(ia) F(tup) F(vd) F(raw) F(vv) F(i8)
#undef F
    if(a.nums.Length() != b.nums.Length()) return "nums length"; for(size_t i = 0; i < a.nums.Length(); ++i) if(a.nums[i] != b.nums[i]) return "nums";
    if(a.raw2.Length() != b.raw2.Length()) return "raw2 length"; for(size_t i = 0; i < a.raw2.Length(); ++i) if(a.raw2[i] != b.raw2[i]) return "raw2";
    if(a.strs.Length() != b.strs.Length()) return "strs length"; for(size_t i = 0; i < a.strs.Length(); ++i) if(a.strs[i] != b.strs[i]) return "strs";
    if(a.bits.Length() != b.bits.Length()) return "bits length"; for(size_t i = 0; i < a.bits.Length(); ++i) if((bool)a.bits[i] != (bool)b.bits[i]) return "bits";
    if(a.deep.Length() != b.deep.Length()) return "deep length"; for(size_t i = 0; i < a.deep.Length(); ++i) { if(a.deep[i].Length() != b.deep[i].Length()) return "deep inner length"; for(size_t j = 0; j < a.deep[i].Length(); ++j) if(a.deep[i][j] != b.deep[i][j]) return "deep"; }
    if(a.arr.Length() != b.arr.Length()) return "arr length"; for(size_t i = 0; i < a.arr.Length(); ++i) if(eq(a.arr[i], b.arr[i])) return "arr";
    if(const char* e = eq(a.nested, b.nested)) return e;
    for(int i = 0; i < 3; ++i) if(a.fix[i] != b.fix[i]) return "fix"; if(memcmp(&a.mat, &b.mat, sizeof(a.mat))) return "mat";
    if(!heq(a.hash, b.hash)) return "hash"; if(!heq(a.smap, b.smap)) return "smap"; return 0;
  }
  inline Doc I(int64_t v) { Doc d; d.k = doc::INT; d.i = v; return d; } inline Doc D(double v) { Doc d; d.k = doc::DBL; d.d = v; return d; } inline Doc S(const std::string& v) { Doc d; d.k = doc::STR; d.s = v; return d; } inline Doc B(bool v) { Doc d; d.k = doc::BOOL; d.b = v; return d; } inline Doc A() { Doc d; d.k = doc::ARR; return d; } inline Doc O() { Doc d; d.k = doc::OBJ; return d; } inline Doc U(uint64_t v) { return v <= INT64_MAX ? I((int64_t)v) : D((double)v); }
  inline Doc image(const In& r) { Doc o = O(); o.o.emplace_back("x", I(r.x)); o.o.emplace_back("name", S(r.name)); Doc k = A(); for(auto& x : r.kids) k.a.push_back(image(x)); o.o.emplace_back("kids", k); Doc a = A(); for(int x : r.ia) a.a.push_back(I(x)); o.o.emplace_back("ia", a); return o; }
  inline Doc image(const Rec& r)
  {
    Doc o = O(); auto put = [&](const char* n, Doc d) { o.o.emplace_back(n, d); };
    put("a", I(r.a)); put("u", U(r.u)); put("b", I(r.b)); put("c", I(r.c)); put("d", I(r.d)); put("sh", I(r.sh)); put("ui", I(r.ui)); put("e", D(r.e)); put("f", D(r.f)); put("str", S(r.str)); put("t", B(r.t)); put("col", I((int)r.col));
    Doc a = A(); for(auto x : r.nums) a.a.push_back(I(x)); put("nums", a); a = A(); for(auto x : r.vd) a.a.push_back(D(x)); put("vd", a); a = A(); for(auto& x : r.strs) a.a.push_back(S(x)); put("strs", a); a = A(); for(auto& x : r.arr) a.a.push_back(image(x)); put("arr", a); put("nested", image(r.nested)); a = A(); for(auto x : r.fix) a.a.push_back(D(x)); put("fix", a); a = A(); for(auto x : r.ia) a.a.push_back(I(x)); put("ia", a);
    Doc h = O(); for(auto it = r.hash.begin(); it != r.hash.end(); ++it) h.o.emplace_back(std::to_string(std::get<0>(*it)), I(std::get<1>(*it))); put("hash", h);
    a = A(); for(auto& x : r.mat.v) { Doc w = A(); for(int y : x) w.a.push_back(I(y)); a.a.push_back(w); } put("mat", a); a = A(); a.a = { I(std::get<0>(r.tup)), S(std::get<1>(r.tup)), D(std::get<2>(r.tup)) }; put("tup", a); a = A(); for(size_t i = 0; i < r.bits.Length(); ++i) a.a.push_back(B(r.bits[i])); put("bits", a);
    h = O(); for(auto it = r.smap.begin(); it != r.smap.end(); ++it) h.o.emplace_back(std::string(std::get<0>(*it)), S(std::get<1>(*it))); put("smap", h); a = A(); for(size_t i = 0; i < r.deep.Length(); ++i) { Doc w = A(); for(size_t j = 0; j < r.deep[i].Length(); ++j) w.a.push_back(I(r.deep[i][j])); a.a.push_back(w); } put("deep", a); a = A(); for(auto x : r.raw) a.a.push_back(I(x)); put("raw", a); a = A(); for(auto x : r.raw2) a.a.push_back(I(x)); put("raw2", a); a = A(); for(auto& x : r.vv) { Doc w = A(); for(int y : x) w.a.push_back(I(y)); a.a.push_back(w); } put("vv", a); a = A(); for(auto x : r.i8) a.a.push_back(I(x)); put("i8", a); return o;
  }
}
