// TOML: typed records survive every round trip through valid TOML, and any text of the supported subset is read as its document.
// ASSUME: no NaN or infinity; strings and keys contain no NUL; text without dotted keys in pairs, digit separators, non-decimal integers or fractional seconds; each table is defined once
#include "tracked.h"
#include "rec.h"
#include "bss-util/TOML.h"
using namespace bss;
using namespace doc;
typedef std::chrono::system_clock Clock;
// In this harness NUL stands for a date-time: i is the second since the epoch.
static int64_t civil(int y, int m, int d) { static const int c[] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 }; auto leap = [](int y) { return y % 4 == 0 && (y % 100 || y % 400 == 0); }; int64_t r = 0; for(int k = 1970; k < y; ++k) r += 365 + leap(k); for(int k = y; k < 1970; ++k) r -= 365 + leap(k); return r + c[m - 1] + (m > 2 && leap(y)) + d - 1; }
static Doc date(pbt::Src& s) { Doc d; d.k = NUL; int y = s.boolean() ? 1970 + (int)s.draw(80) : 1800 + (int)s.draw(400), m = 1 + (int)s.draw(12); d.i = civil(y, m, 1 + (int)s.draw(28)) * 86400; if(s.boolean()) d.i += (int64_t)s.draw(86400); return d; }
static std::string key(pbt::Src& s) { static const char* t[] = { "a", "b", "c", "key", "a-b", "x_y", "0", "12", "A", "bb", "nested", "t" }; switch(s.draw(9)) { case 8: { static const char* u[] = { "a.b", ".", "a.", "a b", "x=y", "#c", "[t]", "a\"b", "a\'b", ",", "{", "}", "t.x.y" }; return u[s.draw(13)]; } case 0: return str(s); case 1: { std::string r; do r += "abz019_-AZ"[s.draw(10)]; while(s.more(3)); return r; } default: return t[s.draw(12)]; } }
static Doc value(pbt::Src& s, int depth, int& budget);
static Doc table(pbt::Src& s, int depth, int& budget, int mean = 3) { Doc d; d.k = OBJ; while(s.more(mean) && budget > 0) { std::string k = key(s); bool dup = false; for(auto& x : d.o) dup |= x.first == k; Doc v = value(s, depth - 1, budget); if(!dup) d.o.emplace_back(k, v); } return d; }
static Doc value(pbt::Src& s, int depth, int& budget)
{
  Doc d; --budget; d.k = (Kind)s.pick({ 2, 5, 4, 5, 3, depth > 0 && budget > 0 ? 5 : 0, depth > 0 && budget > 0 ? 5 : 0 });
  switch(d.k) { case NUL: return date(s); case STR: d.s = str(s); break; case DBL: d.d = real(s); break; case INT: d.i = integer(s); break; case BOOL: d.b = s.boolean(); break; case OBJ: return table(s, depth, budget); case ARR: { bool tables = s.boolean(); while(s.more(3) && budget > 0) d.a.push_back(tables ? table(s, depth - 1, --budget, 2) : value(s, depth - 1, budget)); break; } }
  return d;
}
static bool bare(const std::string& k) { if(k.empty()) return false; for(unsigned char c : k) if(!(isalnum(c) || c == '_' || c == '-') || c > 127) return false; return true; }
static std::string sp(pbt::Src& s) { std::string r; if(s.chance(1, 3)) do r += " \t"[s.draw(2)]; while(s.boolean() && r.size() < 3); return r; }
static std::string cmt(pbt::Src& s) { static const char* t[] = { "# comment", "#", "# a = 1, b = 2", "# \"quoted ' ]] }", "#[x]" }; return s.chance(1, 6) ? sp(s) + t[s.draw(5)] : ""; }
static std::string nl(pbt::Src& s) { std::string r = sp(s) + cmt(s) + (s.chance(1, 5) ? "\r\n" : "\n"); while(s.chance(1, 5) && r.size() < 60) r += sp(s) + cmt(s) + "\n"; return r; }
static std::string gap(pbt::Src& s) { std::string r = sp(s); if(s.chance(1, 6)) r += nl(s) + sp(s); return r; } // inside arrays
static bool ctl(const std::string& v, const char* ok) { for(unsigned char c : v) if((c < 32 || c == 127) && !strchr(ok, c)) return true; return false; }
static std::string basic(pbt::Src& s, const std::string& v, bool multi)
{
  std::string r = multi ? (s.chance(1, 4) ? "\"\"\"\r\n" : s.boolean() ? "\"\"\"\n" : "\"\"\"") : "\""; if(multi && r.size() == 3 && !v.empty() && v[0] == '\n') r += "\n"; char b[16]; int q = 0;
  for(size_t i = 0; i < v.size();)
  {
    unsigned char c = v[i]; size_t n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; uint32_t u = n == 1 ? c : n == 2 ? (c & 31) << 6 | (v[i + 1] & 63) : n == 3 ? (c & 15) << 12 | (v[i + 1] & 63) << 6 | (v[i + 2] & 63) : (c & 7) << 18 | (v[i + 1] & 63) << 12 | (v[i + 2] & 63) << 6 | (v[i + 3] & 63);
    static const char* from = "\"\\\b\f\n\r\t"; static const char* to = "\"\\bfnrt"; const char* p = c < 0x80 ? strchr(from, c) : 0; bool raw = multi && ((c == '\n' && s.boolean()) || (c == '"' && q < 2 && i + 1 < v.size() && s.boolean())); raw |= c == '\t' && s.boolean(); bool must = !raw && (u < 0x20 || u == 0x7F || u == '"' || u == '\\');
    if(!raw && p && (must || s.boolean()) && !s.chance(1, 6)) { r += '\\'; r += to[p - from]; q = 0; } else if(must || (!raw && s.chance(1, 8))) { if(u > 0xFFFF || s.chance(1, 4)) snprintf(b, 16, s.boolean() ? "\\U%08x" : "\\U%08X", u); else snprintf(b, 16, s.boolean() ? "\\u%04x" : "\\u%04X", u); r += b; q = 0; } else { r.append(v, i, n); q = c == '"' ? q + 1 : 0; }
    if(multi && s.chance(1, 12) && (i + n >= v.size() || !strchr(" \t\n\r", v[i + n]))) { r += s.chance(1, 4) ? "\\\r\n" : "\\\n"; while(s.chance(1, 2)) r += " \t\n"[s.draw(3)]; q = 0; } // a backslash at the end of the line removes the white space that follows it
    i += n;
  }
  return r + (multi ? "\"\"\"" : "\"");
}
static std::string tstr(pbt::Src& s, const std::string& v, bool one = false) // one: single-line forms only (keys)
{
  int k = (int)s.draw(4); if(one) k &= 1;
  if(k == 1 && (v.find('\'') != v.npos || ctl(v, "\t"))) k = 0; if(k == 3 && (v.find("'''") != v.npos || (!v.empty() && v.back() == '\'') || ctl(v, "\t\n"))) k = 2;
  switch(k) { case 1: return "'" + v + "'"; case 3: return "'''" + std::string(!v.empty() && v[0] == '\n' ? (s.boolean() ? "\n" : "\r\n") : s.boolean() ? "\n" : s.boolean() ? "\r\n" : "") + v + "'''"; default: return basic(s, v, k == 2); }
}
static std::string tkey(pbt::Src& s, const std::string& k) { return bare(k) && !s.chance(1, 5) ? k : tstr(s, k, true); }
static std::string tdate(pbt::Src& s, int64_t t)
{
  int off = s.boolean() ? 0 : ((int)s.draw(24 * 60) - 12 * 60); bool zone = off || s.boolean(); int64_t l = t + off * 60, d = l / 86400, r = l % 86400; if(r < 0) { r += 86400; --d; } int y = 1700; while(civil(y + 1, 1, 1) <= d) ++y; int m = 12; while(civil(y, m, 1) > d) --m; int day = (int)(d - civil(y, m, 1)) + 1; char b[64]; if(!off && !r && s.boolean()) { snprintf(b, 64, "%04d-%02d-%02d", y, m, day); return b; }
  int n = snprintf(b, 64, "%04d-%02d-%02d%c%02d:%02d:%02d", y, m, day, 'T', (int)(r / 3600), (int)(r / 60 % 60), (int)(r % 60)); if(zone) { if(!off && s.boolean()) snprintf(b + n, 64 - n, "Z"); else snprintf(b + n, 64 - n, "%c%02d:%02d", off < 0 ? '-' : '+', abs(off) / 60, abs(off) % 60); } return b;
}
static std::string tnum(pbt::Src& s, double d) { std::string r = jnum(s, d); if(r.find_first_of(".eE") == r.npos && s.boolean()) r += ".0"; if(r[0] != '-' && s.chance(1, 6)) r = "+" + r; return r; }
static std::string inl(pbt::Src& s, const Doc& d, bool line)
{
  switch(d.k)
  {
  case NUL: return tdate(s, d.i); case STR: return tstr(s, d.s, line); case DBL: return tnum(s, d.d); case INT: return (d.i >= 0 && s.chance(1, 6) ? "+" : "") + std::to_string(d.i); case BOOL: return d.b ? "true" : "false";
  case ARR: { std::string r = "["; for(size_t i = 0; i < d.a.size(); ++i) { r += (line ? sp(s) : gap(s)) + inl(s, d.a[i], line) + (line ? sp(s) : gap(s)); if(i + 1 < d.a.size() || s.chance(1, 6)) r += ","; } return r + (line ? sp(s) : gap(s)) + "]"; }
  case OBJ: { std::string r = "{" + sp(s); for(size_t i = 0; i < d.o.size(); ++i) { if(i) r += "," + sp(s); r += tkey(s, d.o[i].first) + sp(s) + "=" + sp(s) + inl(s, d.o[i].second, true) + sp(s); } return r + "}"; }
  }
  return "";
}
// text of a table: the pairs first, then sub-tables and arrays of tables under headers
static void emit(pbt::Src& s, const Doc& d, const std::string& path, std::string& out)
{
  std::vector<const std::pair<std::string, Doc>*> later;
  for(auto& x : d.o) { bool tabs = x.second.k == ARR && !x.second.a.empty(); for(auto& y : x.second.a) tabs &= y.k == OBJ; if((x.second.k == OBJ || tabs) && s.chance(2, 3)) { later.push_back(&x); continue; } out += sp(s) + tkey(s, x.first) + sp(s) + "=" + sp(s) + inl(s, x.second, false) + nl(s); }
  for(auto p : later)
  {
    std::string k = path + (path.empty() ? "" : sp(s) + "." + sp(s)) + tkey(s, p->first);
    if(p->second.k == ARR) { for(auto& y : p->second.a) { out += "[[" + sp(s) + k + sp(s) + "]]" + nl(s); emit(s, y, k, out); } }
    else { bool all = !p->second.o.empty(), pure = all; for(auto& x : p->second.o) pure &= x.second.k == OBJ; std::string t; if(pure && s.chance(1, 3)) { for(auto& x : p->second.o) { std::string kk = k + "." + tkey(s, x.first); t += "[" + kk + "]" + nl(s); emit(s, x.second, kk, t); } out += t; } else { out += "[" + sp(s) + k + sp(s) + "]" + nl(s); emit(s, p->second, k, out); } }
  }
}
static std::string toml(pbt::Src& s, const Doc& d) { std::string r; if(s.chance(1, 4)) r = nl(s); emit(s, d, "", r); if(!r.empty() && r.back() == '\n' && s.chance(1, 4)) { r.pop_back(); if(!r.empty() && r.back() == '\r') r.pop_back(); } return r; }
static std::string diff(const Doc& d, const TOMLValue& v, const std::string& at)
{
  switch(d.k)
  {
  case NUL: if(!v.is<Clock::time_point>()) return at + " is not a date"; { auto x = std::chrono::duration_cast<std::chrono::seconds>(v.get<Clock::time_point>().time_since_epoch()).count(); return x == d.i ? "" : at + " is " + std::to_string(x) + " s instead of " + std::to_string(d.i); }
  case STR: if(!v.is<Str>()) return at + " is not a string"; return v.get<Str>() == d.s ? "" : at + " is " + show(v.get<Str>()) + " instead of " + show(d.s);
  case BOOL: return v.is<bool>() && v.get<bool>() == d.b ? "" : at + " is not the right boolean";
  case INT: case DBL: { Doc g; if(v.is<int64_t>()) { g.k = INT; g.i = v.get<int64_t>(); } else if(v.is<double>()) { g.k = DBL; g.d = v.get<double>(); } else return at + " is not a number"; if(d.k == INT && g.k != INT) return at + " is not an integer"; return same(d, g) ? "" : at + " is " + (g.k == INT ? std::to_string(g.i) : std::to_string(g.d)) + " instead of " + (d.k == INT ? std::to_string(d.i) : std::to_string(d.d)); }
  case ARR: { if(!v.is<TOMLValue::TOMLArray>()) return at + " is not an array"; auto& a = v.get<TOMLValue::TOMLArray>(); if(a.Length() != d.a.size()) return at + " has " + std::to_string(a.Length()) + " elements instead of " + std::to_string(d.a.size()); for(size_t i = 0; i < d.a.size(); ++i) { std::string e = diff(d.a[i], a[i], at + "[" + std::to_string(i) + "]"); if(!e.empty()) return e; } return ""; }
  case OBJ: { if(!v.is<TOMLValue::TOMLTable>()) return at + " is not a table"; auto& h = v.get<TOMLValue::TOMLTable>(); if(h.Length() != d.o.size()) return at + " has " + std::to_string(h.Length()) + " keys instead of " + std::to_string(d.o.size()); for(auto& x : d.o) { const TOMLValue* p = h[Str(x.first)]; if(!p) return at + "." + show(x.first) + " is missing"; std::string e = diff(x.second, *p, at + "." + show(x.first)); if(!e.empty()) return e; } return ""; }
  }
  return "";
}
PROP(reading, 3, pbt::LEAKCHECK, "document of >=4 values")
{
  int b = 24; Doc d = table(s, 4, b, 4); s.nontrivial(count(d) >= 5); std::string t = toml(s, d); s.note("%s", show(t, 600).c_str()); TOMLValue v; if(s.boolean()) { std::istringstream in(t); ParseTOML(v, in); } else ParseTOML(v, t.c_str()); std::string e = diff(d, v, "root"); CHECK(e.empty(), "%s in %s", e.c_str(), show(t, 900).c_str());
}
// strict reader of what a writer may produce; tables and arrays of tables included
struct Toml
{
  const std::string& t; size_t p = 0; const char* err = 0; Toml(const std::string& x) : t(x) {}
  bool bad(const char* m) { if(!err) err = m; return false; } char at(size_t k = 0) const { return p + k < t.size() ? t[p + k] : 0; } void sp() { while(at() == ' ' || at() == '\t') ++p; } void all() { for(;;) { sp(); if(at() == '#') while(p < t.size() && t[p] != '\n') ++p; if(at() == '\n' || (at() == '\r' && at(1) == '\n')) ++p; else return; } }
  bool eol() { sp(); if(at() == '#') while(p < t.size() && t[p] != '\n') ++p; if(p >= t.size()) return true; if(at() == '\r') ++p; if(at() != '\n') return bad("end of line expected"); ++p; return true; }
  bool string(std::string& r) { if(at() == '\'') { size_t e = t.find('\'', ++p); if(e == t.npos) return bad("open literal"); r = t.substr(p, e - p); p = e + 1; return !ctl(r, "\t") || bad("control character"); } if(at() != '"') return bad("string expected"); if(at(1) == '"' && at(2) == '"') return bad("multi-line string"); ++p; while(p < t.size() && t[p] != '"') { unsigned char c = t[p++]; if((c < 32 && c != '\t') || c == 127) return bad("raw control character"); if(c != '\\') { r += (char)c; continue; } char x = at(); ++p; static const char* e = "\"\\bfnrt"; static const char* q = "\"\\\b\f\n\r\t"; if(x == 'u' || x == 'U') { int n = x == 'u' ? 4 : 8; uint32_t u = 0; while(n--) { if(!isxdigit((unsigned char)at())) return bad("bad escape"); u = u * 16 + (isdigit((unsigned char)at()) ? at() - '0' : (at() | 32) - 'a' + 10); ++p; } utf8(r, u); } else { const char* k = x ? strchr(e, x) : 0; if(!k) return bad("bad escape"); r += q[k - e]; } } if(p >= t.size()) return bad("open string"); ++p; return true; }
  bool key(std::string& k) { sp(); if(at() == '"' || at() == '\'') return string(k); while(isalnum((unsigned char)at()) || at() == '_' || at() == '-') k += t[p++]; return !k.empty() || bad("key expected"); }
  Doc* add(Doc& d, const std::string& k) { for(auto& x : d.o) if(x.first == k) { bad("key defined twice"); return 0; } d.o.emplace_back(k, Doc()); return &d.o.back().second; }
  bool value(Doc& d)
  {
    sp(); char c = at(); if(c == '"' || c == '\'') { d.k = STR; return string(d.s); } if(!t.compare(p, 4, "true")) { d.k = BOOL; d.b = true; p += 4; return true; } if(!t.compare(p, 5, "false")) { d.k = BOOL; p += 5; return true; }
    if(c == '[') { d.k = ARR; ++p; for(all(); at() != ']'; all()) { d.a.emplace_back(); if(!value(d.a.back())) return false; all(); if(at() == ',') ++p; else if(at() != ']') return bad("comma expected"); } ++p; return true; }
    if(c == '{') { d.k = OBJ; ++p; sp(); if(at() == '}') { ++p; return true; } for(;;) { std::string k; if(!key(k)) return false; sp(); if(at() != '=') return bad("= expected"); ++p; Doc v; if(!value(v)) return false; Doc* q = add(d, k); if(!q) return false; *q = v; sp(); if(at() == ',') { ++p; continue; } if(at() == '}') { ++p; return true; } return bad("} expected"); } }
    if(isdigit((unsigned char)c) && isdigit((unsigned char)at(1)) && isdigit((unsigned char)at(2)) && isdigit((unsigned char)at(3)) && at(4) == '-') { int y, m, dd, h = 0, mi = 0, se = 0, oh = 0, om = 0; char sg = '+'; if(sscanf(t.c_str() + p, "%4d-%2d-%2dT%2d:%2d:%2d%c%2d:%2d", &y, &m, &dd, &h, &mi, &se, &sg, &oh, &om) != 9) return bad("bad date"); p += 25; d.k = NUL; d.i = civil(y, m, dd) * 86400 + h * 3600 + mi * 60 + se - (sg == '-' ? -1 : 1) * (oh * 3600 + om * 60); return true; }
    size_t b = p; if(c == '+' || c == '-') ++p; size_t dg = p; while(isdigit((unsigned char)at())) ++p; if(p == dg || (t[dg] == '0' && p - dg > 1)) return bad("value expected"); bool rl = false; if(at() == '.') { rl = true; ++p; if(!isdigit((unsigned char)at())) return bad("digits expected"); while(isdigit((unsigned char)at())) ++p; } if((at() | 32) == 'e') { rl = true; ++p; if(at() == '+' || at() == '-') ++p; if(!isdigit((unsigned char)at())) return bad("digits expected"); while(isdigit((unsigned char)at())) ++p; } std::string n = t.substr(b, p - b); errno = 0; d.i = strtoll(n.c_str(), 0, 10); d.k = INT; if(rl || errno) { d.k = DBL; d.d = strtod(n.c_str(), 0); } return true;
  }
  bool document(Doc& root)
  {
    root.k = OBJ; Doc* cur = &root; std::vector<std::string> defined;
    for(all(); p < t.size(); all())
    {
      if(at() == '[') { ++p; bool arr = at() == '['; if(arr) ++p; cur = &root; std::string full; for(;;) { std::string k; if(!key(k)) return false; full += "\x01" + k; sp(); bool last = at() != '.'; Doc* q = 0; for(auto& x : cur->o) if(x.first == k) q = &x.second; if(q && q->k == ARR && !(last && arr)) { if(q->a.empty() || q->a.back().k != OBJ) return bad("not a table"); q = &q->a.back(); } if(!q) { cur->o.emplace_back(k, Doc()); q = &cur->o.back().second; q->k = last && arr ? ARR : OBJ; } if(q->k != (last && arr ? ARR : OBJ)) return bad("header redefines a value"); cur = q; if(last) break; ++p; } if(at() != ']') return bad("] expected"); ++p; if(arr) { if(at() != ']') return bad("]] expected"); ++p; cur->a.emplace_back(); cur = &cur->a.back(); cur->k = OBJ; } else { for(auto& x : defined) if(x == full) return bad("table defined twice"); defined.push_back(full); } if(!eol()) return false; continue; }
      std::string k; if(!key(k)) return false; sp(); if(at() != '=') return bad("= expected"); ++p; Doc v; if(!value(v) || !eol()) return false; Doc* q = add(*cur, k); if(!q) return false; *q = v;
    }
    return true;
  }
};
static bool alike(Doc a, Doc b, bool flt) { auto fix = [&](Doc& x) { if(flt && (x.k == DBL || x.k == INT)) { x.d = (float)(x.k == INT ? (double)x.i : x.d); x.k = DBL; } }; fix(a); fix(b); if(a.k != b.k || (a.k != ARR && a.k != OBJ)) { if(a.k == NUL && b.k == NUL) return a.i == b.i; return same(a, b); } if(a.a.size() != b.a.size() || a.o.size() != b.o.size()) return false; for(size_t i = 0; i < a.a.size(); ++i) if(!alike(a.a[i], b.a[i], flt)) return false; for(auto& x : a.o) { bool f = false; for(auto& y : b.o) f |= x.first == y.first && alike(x.second, y.second, flt); if(!f) return false; } return true; }
// a record with a date and an array of maps beside the common fields
struct Top
{
  rec::Rec r; Clock::time_point when; DynArray<Hash<Str, int64_t, ARRAY_SAFE>, size_t, ARRAY_SAFE> maps; rec::In last; Hash<Str, rec::In, ARRAY_SAFE> tabs;
  template<typename Engine> void Serialize(Serializer<Engine>& s, const char*) { s.template EvaluateType<Top>(GenPair("r", r), GenPair("when", when), GenPair("maps", maps), GenPair("last", last), GenPair("tabs", tabs)); }
};
static Top top(pbt::Src& s, const rec::Opt& o) { Top t; t.r = rec::gen(s, o); t.when = Clock::time_point(std::chrono::seconds(date(s).i)); while(s.more(2) && t.maps.Length() < 4) { t.maps.Add(Hash<Str, int64_t, ARRAY_SAFE>()); while(s.more(2)) t.maps.Back().Insert(Str(key(s)), integer(s)); } if(s.boolean()) t.last = rec::inner(s, o, 2); while(s.more(2) && t.tabs.Length() < 4) { std::string k = key(s); t.tabs.Insert(Str(k), rec::inner(s, o, 1)); } return t; }
static const char* eq(const Top& a, Top& b) { if(const char* e = rec::eq(a.r, b.r)) return e; if(const char* e = rec::eq(a.last, b.last)) return e; if(a.when != b.when) return "when"; if(a.maps.Length() != b.maps.Length()) return "maps length"; for(size_t i = 0; i < a.maps.Length(); ++i) if(!rec::heq(a.maps[i], b.maps[i])) return "maps"; if(a.tabs.Length() != b.tabs.Length()) return "tabs length"; for(auto it = a.tabs.begin(); it != a.tabs.end(); ++it) { const rec::In* p = b.tabs.PointerValue(b.tabs.Iterator(std::get<0>(*it))); if(!p || rec::eq(std::get<1>(*it), *p)) return "tabs"; } return 0; }
static Doc image(const Top& t) { Doc d = rec::O(); d.o.emplace_back("r", rec::image(t.r)); Doc w; w.k = NUL; w.i = std::chrono::duration_cast<std::chrono::seconds>(t.when.time_since_epoch()).count(); d.o.emplace_back("when", w); Doc a = rec::A(); for(size_t i = 0; i < t.maps.Length(); ++i) { Doc h = rec::O(); for(auto it = t.maps[i].begin(); it != t.maps[i].end(); ++it) h.o.emplace_back(std::string(std::get<0>(*it)), rec::I(std::get<1>(*it))); a.a.push_back(h); } d.o.emplace_back("maps", a); d.o.emplace_back("last", rec::image(t.last)); Doc h = rec::O(); for(auto it = t.tabs.begin(); it != t.tabs.end(); ++it) h.o.emplace_back(std::string(std::get<0>(*it)), rec::image(std::get<1>(*it))); d.o.emplace_back("tabs", h); return d; }
PROP(typed, 3, pbt::LEAKCHECK, "record of more than 500 bytes")
{
  rec::Opt o; o.key = key; Top r = top(s, o), q; std::ostringstream out; bool flat = s.boolean(); if(flat) WriteTOML(r.r, out); else WriteTOML(r, out); std::string t = out.str(); s.note("%s", show(t, 600).c_str()); s.nontrivial(t.size() > 500);
  Toml rd(t); Doc e; CHECK(rd.document(e), "invalid TOML written (%s at %zu): %s", rd.err, rd.p, show(t, 2000).c_str()); Doc m = flat ? rec::image(r.r) : image(r); CHECK(e.o.size() == m.o.size(), "%zu fields written instead of %zu: %s", e.o.size(), m.o.size(), show(t, 2000).c_str());
  const Doc* er = &e; const Doc* mr = &m; if(!flat) { for(auto& x : m.o) { bool f = false; for(auto& y : e.o) f |= x.first == y.first && (x.first == "r" || alike(x.second, y.second, false)); CHECK(f, "field %s written wrongly: %s", x.first.c_str(), show(t, 2000).c_str()); } for(auto& y : e.o) if(y.first == "r") er = &y.second; mr = &m.o[0].second; }
  for(auto& x : mr->o) { bool f = false; for(auto& y : er->o) f |= x.first == y.first && alike(x.second, y.second, x.first == "f" || x.first == "fix"); CHECK(f, "field %s written wrongly: %s", x.first.c_str(), show(t, 2000).c_str()); }
  std::istringstream in(t); if(flat) { rec::Rec z; ParseTOML(z, in); const char* f = rec::eq(r.r, z); CHECK(!f, "field %s changed in a round trip through %s", f, show(t, 2000).c_str()); } else { ParseTOML(q, in); const char* f = eq(r, q); CHECK(!f, "field %s changed in a round trip through %s", f, show(t, 2000).c_str()); }
  TOMLValue v; std::istringstream i2(t); ParseTOML(v, i2); if(m.o.size()) { std::string x = diff(e, v, "root"); CHECK(x.empty(), "as an untyped document: %s in %s", x.c_str(), show(t, 2000).c_str()); }
}
PROP(foreign, 3, pbt::LEAKCHECK, "at least one unknown key and one known field")
{
  rec::Opt o; o.imax = INT64_MAX / 2; o.key = key; Top r = top(s, o), q; Doc m = image(r), d = rec::O(); size_t known = 0, unknown = 0;
  auto mix = [&](Doc& x) { int n = (int)s.draw(3); while(n--) { static const char* t[] = { "aa", "st", "strx", "nest", "nestedx", "A", "arr2", "f1", "zzz", "R", "whe", "whenever", "kid", "nam" }; std::string k = s.chance(1, 4) ? str(s) : t[s.draw(14)]; bool clash = false; for(auto& f : m.o) clash |= f.first == k; for(auto& f : m.o[0].second.o) clash |= f.first == k; for(auto& f : x.o) clash |= f.first == k; for(auto c : { "x", "name", "kids", "ia" }) clash |= k == c; if(clash) continue; ++unknown; int b = 8; x.o.emplace_back(k, value(s, 3, b)); } for(size_t i = x.o.size(); i > 1; --i) std::swap(x.o[i - 1], x.o[s.draw(i)]); };
  bool keep[5]; for(int i = 0; i < 5; ++i) if((keep[i] = !s.chance(1, 4))) { ++known; d.o.push_back(m.o[i]); } for(auto& x : d.o) if(x.first == "r" || x.first == "last") { mix(x.second); for(auto& y : x.second.o) if(y.first == "nested") mix(y.second); if(s.boolean()) for(auto& y : x.second.o) if(y.first == "arr" || y.first == "kids") for(auto& z : y.second.a) mix(z); } mix(d);
  std::string t = toml(s, d); s.note("%s", show(t, 600).c_str()); s.nontrivial(known && unknown); std::istringstream in(t); ParseTOML(q, in); Top x; if(keep[0]) x.r = r.r; if(keep[1]) x.when = r.when; if(keep[2]) x.maps = r.maps; if(keep[3]) x.last = r.last; if(keep[4]) x.tabs = r.tabs; const char* f = eq(x, q); CHECK(!f, "field %s read wrongly from %s", f, show(t, 3000).c_str());
}
PROP(damaged, 1, pbt::LEAKCHECK, "text of >=8 bytes")
{
  std::string t; if(s.chance(4, 5)) { int b = 20; Doc d; if(s.boolean()) d = table(s, 4, b, 4); else d = image(top(s, rec::Opt())); t = mutate(s, toml(s, d)); } else t = s.bytes(60, 0); s.nontrivial(t.size() >= 8); s.note("%s", show(t).c_str());
  std::istringstream in(t); if(s.boolean()) { TOMLValue v; ParseTOML(v, in); } else { Top r; ParseTOML(r, in); std::ostringstream out; WriteTOML(r, out); }
}
