// JSON: documents and typed records survive every round trip, the output is valid JSON, and any valid JSON text is read as its document.
// ASSUME: no NaN or infinity (JSON cannot express them); object keys and strings contain no NUL; records are parsed into freshly constructed objects
#include "tracked.h"
#include "rec.h"
#include "bss-util/JSON.h"
#include <cerrno>
using namespace bss;
using namespace doc;

static JSONValue build(const Doc& d)
{
  JSONValue v;
  switch(d.k)
  {
  case NUL: break; case STR: v = Str(d.s); break; case DBL: v = d.d; break; case INT: v = d.i; break; case BOOL: v = d.b; break;
  case ARR: { JSONValue::JSONArray a; for(auto& x : d.a) a.Add(build(x)); v = std::move(a); break; }
  case OBJ: { JSONValue::JSONObject o; for(auto& x : d.o) { std::pair<Str, JSONValue> p; p.first = Str(x.first); p.second = build(x.second); o.Add(p); } v = o; break; }
  }
  return v;
}
static Doc image(const JSONValue& v)
{
  Doc d;
  if(v.is<Str>()) { d.k = STR; d.s = v.get<Str>(); } else if(v.is<double>()) { d.k = DBL; d.d = v.get<double>(); } else if(v.is<int64_t>()) { d.k = INT; d.i = v.get<int64_t>(); } else if(v.is<bool>()) { d.k = BOOL; d.b = v.get<bool>(); }
  else if(v.is<JSONValue::JSONArray>()) { d.k = ARR; for(auto& x : v.get<JSONValue::JSONArray>()) d.a.push_back(image(x)); }
  else if(v.is<JSONValue::JSONObject>()) { d.k = OBJ; for(auto& x : v.get<JSONValue::JSONObject>()) d.o.emplace_back(std::string(x.first), image(x.second)); }
  return d;
}
PROP(roundtrip, 2, pbt::LEAKCHECK, "document of >=4 values")
{
  int budget = 25; Doc d = gen(s, 4, budget); s.nontrivial(count(d) >= 4); JSONValue v = build(d); CHECK(same(image(v), d), "the value tree does not hold what was put into it");
  std::ostringstream out; size_t pretty = s.draw(3); WriteJSON(v, out, pretty); std::string t = out.str(); s.note("%s", show(t).c_str());
  Reader r(t); Doc e; CHECK(r.document(e), "invalid JSON written (%s at %zu): %s", r.err, r.p, show(t).c_str()); CHECK(same(d, e), "the written text is a different document: %s", show(t).c_str());
  JSONValue w; std::istringstream in(t); ParseJSON(w, in); CHECK(same(d, image(w)), "the document changed in a round trip through %s", show(t).c_str());
  if(s.chance(1, 3)) { std::ostringstream o2; WriteJSON(w, o2, pretty); Reader r2(o2.str()); std::string t2 = o2.str(); Reader r3(t2); Doc e2; CHECK(r3.document(e2) && same(e2, d), "second generation text differs: %s", show(t2).c_str()); }
}
PROP(text, 2, pbt::LEAKCHECK, "document of >=4 values")
{
  int budget = 25; Doc d = gen(s, 4, budget); s.nontrivial(count(d) >= 4); std::string t = ws(s) + json(s, d); if(s.boolean()) t += ws(s); s.note("%s", show(t).c_str());
  { Reader r(t); Doc e; CHECK(r.document(e) && same(d, e), "harness: independent renderer and reader disagree (%s)", r.err); }
  JSONValue w; if(s.boolean()) { int b2 = 4; w = build(gen(s, 1, b2)); } // overwriting an existing value
  std::istringstream in(t); ParseJSON(w, in); Doc g = image(w); CHECK(same(d, g), "JSON text read as a different document: %s", show(t).c_str());
}
PROP(typed, 2, pbt::LEAKCHECK, "record text differs from that of the empty record")
{
  rec::Opt o; rec::Rec r = rec::gen(s, o); std::ostringstream out; WriteJSON(r, out, s.draw(3)); std::string t = out.str(); s.note("%s", show(t, 600).c_str()); s.nontrivial(t.size() > 390);
  Reader rd(t); Doc e; CHECK(rd.document(e), "invalid JSON written (%s at %zu): %s", rd.err, rd.p, show(t, 900).c_str()); Doc m = rec::image(r); CHECK(e.o.size() == m.o.size(), "fields missing");
  for(size_t i = 0; i < m.o.size(); ++i) { Doc got = e.o[i].second; if(m.o[i].first == "f" || m.o[i].first == "fix") { auto fix = [](Doc& x) { if(x.k == DBL || x.k == INT) { x.d = (float)(x.k == INT ? (double)x.i : x.d); x.k = DBL; } }; fix(got); for(auto& x : got.a) fix(x); } CHECK(e.o[i].first == m.o[i].first && same(got, m.o[i].second), "field %s written wrongly: %s", m.o[i].first.c_str(), show(t, 900).c_str()); }
  rec::Rec q; std::istringstream in(t); ParseJSON(q, in); const char* f = rec::eq(r, q); CHECK(!f, "field %s changed in a round trip through %s", f, show(t, 900).c_str());
}
// independent text for a record: fields shuffled, some omitted, unknown ones added, surplus elements of fixed arrays
PROP(foreign, 2, pbt::LEAKCHECK, "at least one unknown key and one known field")
{
  rec::Opt o; rec::Rec r = rec::gen(s, o), q; Doc m = rec::image(r); Doc keep = rec::O();
  size_t known = 0, unknown = 0; std::vector<std::pair<std::string, std::string>> fs;
  for(auto& f : m.o) if(!s.chance(1, 4)) { ++known; keep.o.push_back(f); Doc v = f.second; if((f.first == "fix" || f.first == "ia" || f.first == "tup") && s.chance(1, 4)) { int b = 3; v.a.push_back(gen(s, 1, b)); } std::string x = f.first == "u" ? std::to_string(r.u) : json(s, v); static const char* nums[] = { "a", "u", "b", "c", "d", "sh", "ui", "e", "f", "i8" }; bool number = false; for(auto n : nums) number |= f.first == n && (v.k == INT || v.k == DBL);
    if(number && s.chance(1, 6)) { x = "\"" + x + "\""; s.label("quoted number"); } else if(number && s.chance(1, 10)) { x = "null"; keep.o.pop_back(); s.label("null for a number"); } if(f.first == "t" && s.chance(1, 4)) { x = v.b ? std::to_string(1 + s.draw(1000)) : "0"; s.label("number for a boolean"); } fs.emplace_back(f.first, x); }
  int n = (int)s.draw(4); while(n--) { std::string k; switch(s.draw(3)) { case 0: k = str(s); break; case 1: { static const char* t[] = { "", "aa", "st", "strx", "nest", "nestedx", "A", "arr2", "f1", "vdd", "zzz", "hashh", "bit", "deepest" }; k = t[s.draw(14)]; break; } default: k = m.o[s.draw(m.o.size())].first + str(s); } bool clash = false; for(auto& f : m.o) clash |= f.first == k; if(clash) continue; ++unknown; int b = 8; fs.emplace_back(k, json(s, gen(s, 3, b))); }
  for(size_t i = fs.size(); i > 1; --i) std::swap(fs[i - 1], fs[s.draw(i)]);
  std::string t = ws(s) + "{" + ws(s); for(size_t i = 0; i < fs.size(); ++i) { if(i) t += "," + ws(s); t += jstr(s, fs[i].first) + ws(s) + ":" + ws(s) + fs[i].second + ws(s); } t += "}"; s.note("%s", show(t, 600).c_str()); s.nontrivial(known && unknown);
  std::istringstream in(t); ParseJSON(q, in);
  // fields that were omitted keep their defaults; the rest must equal the model
  rec::Rec x; auto has = [&](const char* n) { for(auto& f : keep.o) if(f.first == n) return true; return false; };
#define F(n) if(has(#n)) x.n = r.n;
  F(a) F(u) F(b) F(c) F(d) F(sh) F(ui) F(e) F(f) F(str) F(t) F(col) F(nums) F(vd) F(strs) F(arr) F(nested) F(ia) F(hash) F(mat) F(tup) F(bits) F(smap) F(deep) F(raw) F(raw2) F(vv) F(i8)
#undef F
  if(has("fix")) memcpy(x.fix, r.fix, sizeof(x.fix));
  const char* f = rec::eq(x, q); CHECK(!f, "field %s read wrongly from %s", f, show(t, 900).c_str());
}
PROP(damaged, 1, pbt::LEAKCHECK, "text of >=8 bytes")
{ // damaged or arbitrary text must be handled without memory errors, leaks or hangs, and leave a usable object
  std::string t; if(s.chance(4, 5)) { int b = 20; Doc d; if(s.boolean()) d = gen(s, 4, b); else d = rec::image(rec::gen(s, rec::Opt())); t = mutate(s, json(s, d)); } else t = s.bytes(60, 0); s.nontrivial(t.size() >= 8); s.note("%s", show(t).c_str());
  if(s.boolean()) { JSONValue v; std::istringstream in(t); ParseJSON(v, in); std::ostringstream out; WriteJSON(v, out); Doc e; (void)e; JSONValue w; std::istringstream i2(out.str()); ParseJSON(w, i2); }
  else { rec::Rec r; std::istringstream in(t); ParseJSON(r, in); std::ostringstream out; WriteJSON(r, out); }
}
