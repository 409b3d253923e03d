// UBJSON: values and typed records survive every round trip, the output is valid UBJSON, and any valid encoding is read as its value.
// LIBS: UBJSON.cpp
// ASSUME: strings and keys are shorter than the input; damaged texts carry no 32/64-bit lengths (no allocation limits are claimed); fields hold values of a convertible kind
#include "tracked.h"
#include "rec.h"
#include "bss-util/UBJSON.h"
using namespace bss;
using namespace doc;
typedef UBJSONTuple T;
struct U { char t = 'Z'; int64_t i = 0; double d = 0; std::string s; std::vector<U> a; std::vector<std::pair<std::string, U>> o; };
static bool same(const U& x, const U& y) { if(x.t != y.t || x.i != y.i || memcmp(&x.d, &y.d, 8) || x.s != y.s || x.a.size() != y.a.size() || x.o.size() != y.o.size()) return false; for(size_t i = 0; i < x.a.size(); ++i) if(!same(x.a[i], y.a[i])) return false; for(size_t i = 0; i < x.o.size(); ++i) if(x.o[i].first != y.o[i].first || !same(x.o[i].second, y.o[i].second)) return false; return true; }
static size_t count(const U& u) { size_t n = 1; for(auto& x : u.a) n += count(x); for(auto& x : u.o) n += count(x.second); return n; }
static std::string ustr(pbt::Src& s) { std::string r = s.chance(1, 12) ? s.bytes(s.chance(1, 3) ? 400 : 30, 0) : str(s); return r; }
static U ugen(pbt::Src& s, int depth, int& budget, int force = -1)
{
  static const char ty[] = "ZTFiUIlLdDCSH[{"; U u; --budget; int k = force >= 0 ? force : (int)s.pick({ 2, 2, 2, 2, 2, 2, 2, 2, 2, 3, 1, 5, 1, depth > 0 && budget > 0 ? 5 : 0, depth > 0 && budget > 0 ? 5 : 0 }); u.t = ty[k];
  switch(u.t)
  {
  case 'i': u.i = rec::num<int8_t>(s); break; case 'C': u.i = (int8_t)s.draw(128); break; case 'U': u.i = rec::num<uint8_t>(s); break; case 'I': u.i = rec::num<int16_t>(s); break; case 'l': u.i = rec::num<int32_t>(s); break; case 'L': u.i = rec::num<int64_t>(s); break;
  case 'd': u.d = (float)real(s); if(!std::isfinite(u.d)) u.d = 1.5; break; case 'D': u.d = real(s); break; case 'S': u.s = ustr(s); break; case 'H': u.s = std::to_string(s.bits64()); break;
  case '[': { int f = s.boolean() ? (int)s.draw(depth > 0 ? 15 : 13) : -1; while(s.more(3) && budget > 0) u.a.push_back(ugen(s, depth - 1, budget, f)); break; } // often all of one type
  case '{': { int f = s.boolean() ? (int)s.draw(depth > 0 ? 15 : 13) : -1; while(s.more(3) && budget > 0) { std::string k = ustr(s); u.o.emplace_back(k, ugen(s, depth - 1, budget, f)); } break; }
  }
  return u;
}
static T* mk(const U& u)
{
  auto dup = [](const std::string& s) { char* p = new char[s.size() + 1]; memcpy(p, s.c_str(), s.size() + 1); return p; };
  switch(u.t)
  {
  case 'Z': case 'T': case 'F': { T* t = new T(); t->Type = (T::TYPE)u.t; return t; } case 'd': return new T(T::TYPE_FLOAT, (float)u.d); case 'D': return new T(T::TYPE_DOUBLE, u.d); case 'S': case 'H': return new T((T::TYPE)u.t, (int64_t)u.s.size(), dup(u.s));
  case '[': { T* t = new T(); new (&t->Array) T::UBJSONArray(1); t->Type = T::TYPE_ARRAY; for(auto& x : u.a) { std::unique_ptr<T> e(mk(x)); t->Array.AddConstruct(std::move(*e)); } return t; }
  case '{': { T* t = new T(); new (&t->Object) T::UBJSONObject(1); t->Type = T::TYPE_OBJECT; for(auto& x : u.o) { std::unique_ptr<T> e(mk(x.second)); t->Object.AddConstruct(std::pair<Str, T>(Str(x.first), std::move(*e))); } return t; }
  default: return new T((T::TYPE)u.t, u.i);
  }
}
static U image(const T& t)
{
  U u; u.t = t.Type; switch(u.t) { case 'C': case 'i': u.i = t.Int8; break; case 'U': u.i = t.UInt8; break; case 'I': u.i = t.Int16; break; case 'l': u.i = t.Int32; break; case 'L': u.i = t.Int64; break; case 'd': u.d = t.Float; break; case 'D': u.d = t.Double; break; case 'S': case 'H': u.s.assign(t.String, t.Length); break; case '[': for(auto& x : t.Array) u.a.push_back(image(x)); break; case '{': for(auto& x : t.Object) u.o.emplace_back(std::string(x.first), image(x.second)); break; } return u;
}
// independent encoder with random layout choices
static void be(std::string& o, uint64_t v, int n) { while(n--) o += (char)(v >> (8 * n)); }
static void len(pbt::Src& s, std::string& o, size_t n) { static const char t[] = "iUIlL"; static const int w[] = { 1, 1, 2, 4, 8 }; static const size_t mx[] = { 127, 255, 32767, 2147483647, (size_t)-1 }; int k = (int)s.draw(5); while(n > mx[k]) ++k; o += t[k]; be(o, n, w[k]); }
static void enc(pbt::Src& s, std::string& o, const U& u, bool tag)
{
  if(tag) { if(s.chance(1, 12)) o += 'N'; o += u.t; }
  switch(u.t)
  {
  case 'i': case 'U': case 'C': be(o, (uint64_t)u.i, 1); break; case 'I': be(o, (uint64_t)u.i, 2); break; case 'l': be(o, (uint64_t)u.i, 4); break; case 'L': be(o, (uint64_t)u.i, 8); break; case 'd': { float f = (float)u.d; uint32_t b; memcpy(&b, &f, 4); be(o, b, 4); break; } case 'D': { uint64_t b; memcpy(&b, &u.d, 8); be(o, b, 8); break; } case 'S': case 'H': len(s, o, u.s.size()); o += u.s; break;
  case '[': { bool one = !u.a.empty(); for(auto& x : u.a) one &= x.t == u.a[0].t; int m = (int)s.draw(3); if(m == 2 && !one) m = 1; if(m == 2) { o += '$'; o += u.a[0].t; } if(m) { o += '#'; len(s, o, u.a.size()); } for(auto& x : u.a) enc(s, o, x, m != 2); if(!m) o += ']'; break; }
  case '{': { bool one = !u.o.empty(); for(auto& x : u.o) one &= x.second.t == u.o[0].second.t; int m = (int)s.draw(3); if(m == 2 && !one) m = 1; if(m == 2) { o += '$'; o += u.o[0].second.t; } if(m) { o += '#'; len(s, o, u.o.size()); } for(auto& x : u.o) { len(s, o, x.first.size()); o += x.first; enc(s, o, x.second, m != 2); } if(!m) o += '}'; break; }
  }
}
// independent strict decoder
struct Dec
{
  const std::string& t; size_t p = 0; const char* err = 0; Dec(const std::string& x) : t(x) {} bool bad(const char* e) { if(!err) err = e; return false; } int peek() { return p < t.size() ? (unsigned char)t[p] : -1; }
  bool num(int n, bool sg, int64_t& v) { if(p + n > t.size()) return bad("truncated"); uint64_t u = 0; for(int i = 0; i < n; ++i) u = u << 8 | (unsigned char)t[p++]; v = sg && n < 8 ? (int64_t)(u << (64 - 8 * n)) >> (64 - 8 * n) : (int64_t)u; return true; }
  bool length(int64_t& v) { int c = peek(); ++p; switch(c) { case 'i': if(!num(1, true, v)) return false; break; case 'U': if(!num(1, false, v)) return false; break; case 'I': if(!num(2, true, v)) return false; break; case 'l': if(!num(4, true, v)) return false; break; case 'L': if(!num(8, true, v)) return false; break; default: return bad("bad length"); } return v >= 0 || bad("negative length"); }
  bool str(std::string& s) { int64_t n; if(!length(n)) return false; if((size_t)n > t.size() - p) return bad("truncated string"); s.assign(t, p, n); p += n; return true; }
  bool value(U& u, char ty)
  {
    if(!ty) { if(peek() < 0) return bad("value expected"); ty = t[p++]; } u.t = ty; int64_t v = 0;
    switch(ty)
    {
    case 'Z': case 'T': case 'F': return true; case 'i': case 'C': return num(1, true, u.i); case 'U': return num(1, false, u.i); case 'I': return num(2, true, u.i); case 'l': return num(4, true, u.i); case 'L': return num(8, true, u.i); case 'd': { if(!num(4, false, v)) return false; uint32_t b = (uint32_t)v; float f; memcpy(&f, &b, 4); u.d = f; return true; } case 'D': if(!num(8, false, v)) return false; memcpy(&u.d, &v, 8); return true; case 'S': case 'H': return str(u.s);
    case '[': case '{': { char et = 0; int64_t n = -1; if(peek() == '$') { ++p; if(peek() < 0) return bad("type"); et = t[p++]; if(peek() != '#') return bad("type without count"); } if(peek() == '#') { ++p; if(!length(n)) return false; } while(n ? (n > 0 || peek() != (ty == '[' ? ']' : '}')) : false) { if(ty == '[') { u.a.emplace_back(); if(!value(u.a.back(), et)) return false; } else { u.o.emplace_back(); if(!str(u.o.back().first) || !value(u.o.back().second, et)) return false; } if(n > 0) --n; } if(n < 0) ++p; return true; }
    default: return bad("unknown type marker");
    }
  }
  bool document(U& u) { return value(u, 0) && (p == t.size() || bad("bytes after the document")); }
};
static T* clone(pbt::Src& s, T* t) { if(s.chance(1, 3)) { T* c = new T(*t); delete t; t = c; } if(s.chance(1, 3)) { T* c = new T(std::move(*t)); delete t; t = c; } return t; }
PROP(roundtrip, 2, pbt::LEAKCHECK, "value tree of >=4 values")
{
  int b = 25; U u = ugen(s, 4, b); s.nontrivial(count(u) >= 4); std::unique_ptr<T> t(clone(s, mk(u))); CHECK(same(image(*t), u), "the value tree does not hold what was put into it (or copying changed it)");
  std::ostringstream out; { Serializer<UBJSONEngine> e; e.Serialize(*t, out); } std::string x = out.str(); s.note("%s", show(x).c_str());
  Dec d(x); U g; CHECK(d.document(g), "invalid UBJSON written (%s at %zu): %s", d.err, d.p, show(x).c_str()); CHECK(same(g, u), "the written bytes are a different value: %s", show(x).c_str());
  T r; std::istringstream in(x); { Serializer<UBJSONEngine> e; e.Parse(r, in); } CHECK(same(image(r), u), "the value changed in a round trip through %s", show(x).c_str());
}
PROP(bytes, 2, pbt::LEAKCHECK, "value tree of >=4 values")
{
  int b = 25; U u = ugen(s, 4, b); s.nontrivial(count(u) >= 4); std::string x; enc(s, x, u, true); s.note("%s", show(x).c_str()); if(s.boolean()) x += "trailing";
  std::istringstream in(x); std::unique_ptr<T> t(new T()); t->Parse(in, T::TYPE_NONE); CHECK(same(image(*t), u), "UBJSON read as a different value: %s", show(x).c_str()); t.reset(clone(s, t.release())); CHECK(same(image(*t), u), "copying a parsed value changed it");
}
static Doc todoc(const U& u) { Doc d; switch(u.t) { case 'Z': break; case 'T': case 'F': d = rec::B(u.t == 'T'); break; case 'd': case 'D': d = rec::D(u.d); break; case 'S': d = rec::S(u.s); break; case 'H': d = rec::D(strtod(u.s.c_str(), 0)); break; case '[': d = rec::A(); for(auto& x : u.a) d.a.push_back(todoc(x)); break; case '{': d = rec::O(); for(auto& x : u.o) d.o.emplace_back(x.first, todoc(x.second)); break; default: d = rec::I(u.i); } return d; }
PROP(typed, 2, pbt::LEAKCHECK, "record of more than 400 bytes")
{
  rec::Opt o; rec::Rec r = rec::gen(s, o); std::ostringstream out; { Serializer<UBJSONEngine> e; e.Serialize(r, out); } std::string x = out.str(); s.note("%s", show(x, 600).c_str()); s.nontrivial(x.size() > 400);
  Dec d(x); U g; CHECK(d.document(g), "invalid UBJSON written (%s at %zu): %s", d.err, d.p, show(x, 900).c_str()); Doc e = todoc(g), m = rec::image(r); CHECK(e.o.size() == m.o.size(), "fields missing"); for(size_t i = 0; i < m.o.size(); ++i) CHECK(e.o[i].first == m.o[i].first && doc::same(e.o[i].second, m.o[i].second), "field %s written wrongly: %s", m.o[i].first.c_str(), show(x, 900).c_str());
  rec::Rec q; std::istringstream in(x); { Serializer<UBJSONEngine> e; e.Parse(q, in); } const char* f = rec::eq(r, q); CHECK(!f, "field %s changed in a round trip through %s", f, show(x, 900).c_str());
}
// an independent encoding of a record: any integer width that fits, any container layout, fields shuffled, omitted and added
static U tou(pbt::Src& s, const Doc& d)
{
  U u; switch(d.k) { case NUL: break; case STR: u.t = 'S'; u.s = d.s; break; case BOOL: u.t = d.b ? 'T' : 'F'; break; case DBL: u.t = (double)(float)d.d == d.d && s.boolean() ? 'd' : 'D'; u.d = d.d; break; case INT: { static const char t[] = "iUIlL"; static const int64_t lo[] = { -128, 0, -32768, INT32_MIN, INT64_MIN }, hi[] = { 127, 255, 32767, INT32_MAX, INT64_MAX }; int k = (int)s.draw(5); while(d.i < lo[k] || d.i > hi[k]) ++k; u.t = t[k]; u.i = d.i; break; } case ARR: { u.t = '['; for(auto& x : d.a) u.a.push_back(tou(s, x)); break; } case OBJ: u.t = '{'; for(auto& x : d.o) u.o.emplace_back(x.first, tou(s, x.second)); break; } return u;
}
PROP(foreign, 2, pbt::LEAKCHECK, "at least one unknown key and one known field")
{
  rec::Opt o; rec::Rec r = rec::gen(s, o), q; Doc m = rec::image(r); U u; u.t = '{'; std::vector<std::string> kept; size_t unknown = 0; bool typed = s.chance(1, 6);
  for(auto& f : m.o) if(!s.chance(1, 4)) { U v = tou(s, f.second); if(f.first == "u" && f.second.k == DBL) { v.t = 'H'; v.s = std::to_string(r.u); } if(f.first == "t" && s.chance(1, 3)) { static const char t[] = "iUIlL"; v.t = t[s.draw(5)]; v.i = r.t ? 1 + (int64_t)s.draw(127) : 0; s.label("number for a boolean"); } static const char* nums[] = { "a", "u", "b", "c", "d", "sh", "ui" }; bool number = false; for(auto n : nums) number |= f.first == n; bool null = false;
    if(number && f.second.k == INT) switch(s.draw(8)) { case 0: v = U(); v.t = 'H'; v.s = std::to_string(f.second.i); s.label("high-precision number"); break; case 1: v = U(); null = true; s.label("null for a number"); break; case 2: if(f.second.i == 0 || f.second.i == 1) { v = U(); v.t = f.second.i ? 'T' : 'F'; s.label("boolean for a number"); } break; case 3: if(fabs((double)f.second.i) < 9e15) { v = U(); v.t = 'D'; v.d = (double)f.second.i; s.label("double for an integer"); } break; case 4: if(f.second.i >= 0 && f.second.i < 128) { v = U(); v.t = 'C'; v.i = f.second.i; s.label("character for a number"); } break; default: break; }
    if((f.first == "e") && s.chance(1, 6)) { v = U(); v.t = 'H'; char bf[40]; snprintf(bf, 40, "%.17g", f.second.d); v.s = bf; }
    if(typed && v.t != '[') continue; if(!null) kept.push_back(f.first); u.o.emplace_back(f.first, v); }
  int n = (int)s.draw(4); while(n--) { std::string k = s.boolean() ? str(s) : m.o[s.draw(m.o.size())].first + str(s); bool clash = false; for(auto& f : m.o) clash |= f.first == k; if(clash) continue; ++unknown; int b = 8; u.o.emplace_back(k, ugen(s, 3, b, typed ? 13 : -1)); }
  for(size_t i = u.o.size(); i > 1; --i) std::swap(u.o[i - 1], u.o[s.draw(i)]);
  std::string x; enc(s, x, u, true); s.note("%s", show(x, 600).c_str()); s.nontrivial(kept.size() && unknown); std::istringstream in(x); { Serializer<UBJSONEngine> e; e.Parse(q, in); }
  rec::Rec y; auto has = [&](const char* n) { return std::find(kept.begin(), kept.end(), n) != kept.end(); };
#define F(n) if(has(#n)) y.n = r.n;
  F(a) F(u) F(b) F(c) F(d) F(sh) F(ui) F(e) F(f) F(str) F(t) F(col) F(nums) F(vd) F(strs) F(arr) F(nested) F(ia) F(hash) F(mat) F(tup) F(bits) F(smap) F(deep) F(raw) F(raw2) F(vv) F(i8)
#undef F
  if(has("fix")) memcpy(y.fix, r.fix, sizeof(y.fix));
  const char* f = rec::eq(y, q); CHECK(!f, "field %s read wrongly from %s", f, show(x, 900).c_str());
}
PROP(damaged, 1, pbt::LEAKCHECK, "input of >=4 bytes")
{ // damaged input is rejected with an exception or read as something, without memory errors, leaks or hangs
  std::string x; if(s.chance(4, 5)) { int b = 20; enc(s, x, ugen(s, 4, b), true); x = mutate(s, x); if(s.boolean()) { static const char c[] = "[]{}$#SiUICHdDTFZN"; x.insert(s.draw(x.size() + 1), 1, c[s.draw(sizeof(c) - 1)]); } } else { int n = (int)s.draw(40); while(n--) { static const char c[] = "[]{}$#SiUICHdDTFZN\x01\x02\x03"; x += c[s.draw(sizeof(c) - 1)]; } }
  for(auto& c : x) if(c == 'l' || c == 'L') c = 'I'; s.nontrivial(x.size() >= 4); s.note("%s", show(x).c_str());
  std::istringstream in(x); try { T t; t.Parse(in, T::TYPE_NONE); U u = image(t); if(s.chance(1, 4)) { T c(t); T m(std::move(t)); } } catch(std::runtime_error&) { s.label("rejected"); }
}
