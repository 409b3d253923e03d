// Unicode conversions: exact results, exact bounds, truncation at character boundaries, malformed input stopped at.
// LIBS: ConvertUTF.c bss_util_c.c
// ASSUME: surrogate code points and embedded NUL are not part of the text; conversions to and from 16-bit wide characters are not covered on this platform
#include "tracked.h"
#include "bss-util/Str.h"
using namespace bss;
typedef std::string S8;
typedef std::u32string S32;
static uint32_t cp(pbt::Src& s) { uint32_t c; switch(s.draw(8)) { case 0: case 1: c = 1 + (uint32_t)s.draw(127); break; case 2: c = 0x80 + (uint32_t)s.draw(0x780); break; case 3: c = 0x800 + (uint32_t)s.draw(0xF800); break; case 4: c = 0x10000 + (uint32_t)s.draw(0x100000); break; case 5: { static const uint32_t e[] = { 1, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF }; c = e[s.draw(18)]; break; } default: c = 'a' + (uint32_t)s.draw(26); } return c >= 0xD800 && c < 0xE000 ? 0x3042 : c; }
static S32 text(pbt::Src& s) { S32 r; while(s.more()) r += (char32_t)cp(s); return r; }
static void put(S8& o, uint32_t c) { if(c < 0x80) o += (char)c; else if(c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if(c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } }
static S8 enc(const S32& t) { S8 r; for(uint32_t c : t) put(r, c > 0x10FFFF ? 0xFFFD : c); return r; }
// strict decoder written from the table of well-formed sequences (Unicode, table 3-7); returns false at the first ill-formed one
static bool dec1(const unsigned char* p, const unsigned char* e, uint32_t& c, int& n)
{
  struct R { unsigned char a, b, c, d; int n; }; static const R t[] = { { 0x00, 0x7F, 0, 0, 1 }, { 0xC2, 0xDF, 0x80, 0xBF, 2 }, { 0xE0, 0xE0, 0xA0, 0xBF, 3 }, { 0xE1, 0xEC, 0x80, 0xBF, 3 }, { 0xED, 0xED, 0x80, 0x9F, 3 }, { 0xEE, 0xEF, 0x80, 0xBF, 3 }, { 0xF0, 0xF0, 0x90, 0xBF, 4 }, { 0xF1, 0xF3, 0x80, 0xBF, 4 }, { 0xF4, 0xF4, 0x80, 0x8F, 4 } };
  for(auto& r : t) if(*p >= r.a && *p <= r.b)
  {
    n = r.n; if(e - p < n) return false; if(n == 1) { c = *p; return true; } if(p[1] < r.c || p[1] > r.d) return false; c = n == 2 ? *p & 31 : n == 3 ? *p & 15 : *p & 7;
    for(int i = 1; i < n; ++i) { if((p[i] & 0xC0) != 0x80) return false; c = c << 6 | (p[i] & 63); } return true;
  }
  return false;
}
static S32 decs(const S8& b, bool* ok = 0) { S32 r; auto p = (const unsigned char*)b.data(), e = p + b.size(); uint32_t c; int n; while(p < e) { if(!dec1(p, e, c, n)) { if(ok) *ok = false; return r; } r += (char32_t)c; p += n; } if(ok) *ok = true; return r; }
template<class C> struct Buf { C* p; size_t n; explicit Buf(size_t k) : p((C*)malloc(k ? k * sizeof(C) : 1)), n(k) { memset(p, 0x5A, k * sizeof(C)); } explicit Buf(const std::basic_string<C>& s, bool term) : Buf(s.size() + term) { memcpy(p, s.data(), s.size() * sizeof(C)); if(term) p[s.size()] = 0; } ~Buf() { free(p); } Buf(const Buf&) = delete; };
static S8 hex(const S8& b) { S8 r; char t[4]; for(unsigned char c : b) { snprintf(t, 4, "%02x ", c); r += t; } return r; }
static S8 hex(const S32& b) { S8 r; char t[16]; for(uint32_t c : b) { snprintf(t, 16, "U+%X ", c); r += t; } return r; }
// units of the text that fit whole into room; ends[i] = units needed by the first i characters (terminator last)
static size_t fit(const std::vector<size_t>& ends, size_t room) { size_t r = 0; for(size_t x : ends) if(x <= room) r = x; return r; }
template<class A, class B> static void conv(pbt::Src& s, const std::basic_string<A>& in, const std::basic_string<B>& want, const std::vector<size_t>& ends0, size_t (*f)(const A*, ptrdiff_t, B*, size_t), bool complete)
{
  bool term = s.boolean(), counted = !term || s.boolean(); // a terminated source can be given with its length (with or without the terminator) or -1
  bool incl = term && counted && s.boolean(); ptrdiff_t len = counted ? (ptrdiff_t)(in.size() + incl) : -1; Buf<A> src(in, term);
  bool out0 = complete && term && (!counted || incl); std::basic_string<B> w = want; std::vector<size_t> ends = ends0; if(out0) { w += (B)0; ends.push_back(w.size()); }
  size_t need = f(src.p, len, nullptr, 0); s.note("length %zd%s, %zu units needed, query says %zu", len, term ? " (terminated)" : "", w.size(), need);
  if(len == 0) { CHECK(need == 0, "an empty source needs %zu units", need); w.clear(); }
  CHECK(need >= w.size(), "the size query returned %zu but the conversion needs %zu units", need, w.size()); if(complete && len) CHECK(need <= w.size() + 1, "the size query returned %zu for a result of %zu units", need, w.size());
  size_t room; switch(s.draw(3)) { case 0: room = need; break; case 1: room = w.size(); break; default: room = s.draw(need + 2); } Buf<B> out(room); Buf<A> before(in, term);
  size_t r = f(src.p, len, out.p, room); size_t k = len ? fit(ends, room) : 0; s.note("room for %zu units: %zu written, %zu expected", room, r, k); s.nontrivial(in.size() > 1); if(k < w.size()) s.label("truncated");
  CHECK(r == k, "with room for %zu units the conversion reports %zu units instead of %zu", room, r, k);
  for(size_t i = 0; i < k; ++i) CHECK(out.p[i] == w[i], "unit %zu of the result is %llx instead of %llx", i, (unsigned long long)out.p[i], (unsigned long long)w[i]);
  CHECK(!memcmp(src.p, before.p, src.n * sizeof(A)), "the conversion changed its source");
}
PROP(decode, 3, 0, "valid UTF-8 of at least two bytes was decoded")
{
  S32 t = text(s); S8 b = enc(t); s.note("%s", hex(t).c_str()); std::vector<size_t> ends; for(size_t i = 0; i <= t.size(); ++i) ends.push_back(i);
  conv<char, char32_t>(s, b, t, ends, &UTF8toUTF32, true);
}
PROP(encode, 3, 0, "at least two code points were encoded")
{
  S32 t = text(s); if(s.chance(1, 3)) for(auto& c : t) if(s.chance(1, 4)) c = (char32_t)(0x110000 + s.draw(s.boolean() ? 0xFFEF0000ull : 0x1000)); S8 b = enc(t); s.note("%s", hex(t).c_str());
  std::vector<size_t> ends{ 0 }; for(size_t i = 1; i <= t.size(); ++i) ends.push_back(enc(t.substr(0, i)).size());
  conv<char32_t, char>(s, t, b, ends, &UTF32toUTF8, true);
}
PROP(malformed, 3, 0, "the input was ill-formed")
{
  S8 b = enc(text(s)); int k = 1 + (int)s.draw(3);
  while(k--) { size_t i = s.draw(b.size() + 1); switch(s.draw(5)) { case 0: b.insert(i, 1, (char)(1 + s.draw(255))); break; case 1: if(i < b.size()) b[i] = (char)(1 + s.draw(255)); break; case 2: if(i < b.size()) b.erase(i, 1); break; case 3: b.resize(i); break; default: { static const char* bad[] = { "\xC0\x80", "\xC1\xBF", "\xE0\x80\x80", "\xE0\x9F\xBF", "\xED\xA0\x80", "\xED\xBF\xBF", "\xF0\x80\x80\x80", "\xF0\x8F\xBF\xBF", "\xF4\x90\x80\x80", "\xF5\x80\x80\x80", "\xF8\x88\x80\x80\x80", "\xFC\x84\x80\x80\x80\x80", "\xFF", "\xFE", "\x80", "\xBF" }; b.insert(i, bad[s.draw(16)]); } } }
  bool ok; S32 t = decs(b, &ok); s.note("%s: %zu characters before the first ill-formed sequence", hex(b).c_str(), t.size()); std::vector<size_t> ends; for(size_t i = 0; i <= t.size(); ++i) ends.push_back(i);
  conv<char, char32_t>(s, b, t, ends, &UTF8toUTF32, ok); s.nontrivial(!ok);
}
PROP(strings, 3, 0, "a text of at least two characters was converted")
{
  typedef StrT<char32_t> U; S32 t = text(s); S8 b = enc(t); s.note("%s", hex(t).c_str()); s.nontrivial(t.size() > 1);
  Str a(b.c_str()); U u(a); CHECK(u == t, "Str to StrT<char32_t> gives %s", hex(S32(u)).c_str()); Str back(u); CHECK(back == b, "StrT<char32_t> to Str gives %s", hex(S8(back)).c_str());
  U v(b.c_str()); CHECK(v == t, "construction from UTF-8 text"); Str w(t.c_str()); CHECK(w == b, "construction from UTF-32 text");
  U x(U"previous contents"); x = a; CHECK(x == t, "assignment from Str"); x = U"q"; x = b.c_str(); CHECK(x == t, "assignment from UTF-8 text"); Str y("previous contents that are rather long"); y = u; CHECK(y == b, "assignment from StrT<char32_t>"); y = "q"; y = t.c_str(); CHECK(y == b, "assignment from UTF-32 text");
  if(b.find('\0') == b.npos) { size_t n = s.draw(t.size() + 1); S8 p = enc(t.substr(0, n)); Buf<char> src(p, false); U c(src.p, p.size()); CHECK(c == t.substr(0, n), "construction from %zu bytes of UTF-8 gives %s", p.size(), hex(S32(c)).c_str()); Buf<char32_t> src2(t.substr(0, n), false); Str d(src2.p, n); CHECK(d == p, "construction from %zu UTF-32 units gives %s", n, hex(S8(d)).c_str()); }
  if(s.chance(1, 2)) { S8 m = b; m.insert(s.draw(m.size() + 1), 1, "\xFF\x80\xC0\xE3\xF1"[s.draw(5)]); S32 want = decs(m); U g(m.c_str()); CHECK(g == want, "ill-formed text %s becomes %s", hex(m).c_str(), hex(S32(g)).c_str()); s.label("ill-formed"); }
  CHECK(U((const char*)0).empty() && Str((const char32_t*)0).empty(), "a null pointer is an empty string");
}
