// A document model shared by the serialization harnesses, with generators and independent text renderers.
#pragma once
#include "pbt.h"
#include <string>
#include <vector>
#include <cmath>
#include <cstring>
#include <cfloat>
#include <climits>
#include <cstdio>
#include <cerrno>
#include <cctype>
#include <functional>
#include <algorithm>
namespace doc {
  enum Kind { NUL, STR, DBL, INT, BOOL, ARR, OBJ };
  struct Doc { Kind k = NUL; std::string s; double d = 0; int64_t i = 0; bool b = false; std::vector<Doc> a; std::vector<std::pair<std::string, Doc>> o; };
  inline void utf8(std::string& s, uint32_t c) { if(c < 0x80) s += (char)c; else if(c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); } else if(c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } }
  inline uint32_t codepoint(pbt::Src& s)
  { // any Unicode scalar value except NUL, biased towards the interesting ones
    switch(s.pick({ 8, 6, 2, 2, 2, 1 })) { case 0: return 'a' + (uint32_t)s.draw(26); case 1: { static const char t[] = "\"\\/,:{}[]' \t\n\r\b\f.-+eE0129<>&;#=_"; return (unsigned char)t[s.draw(sizeof(t) - 1)]; } case 2: return 1 + (uint32_t)s.draw(0x7F); case 3: { static const uint32_t t[] = { 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x1F600, 0xE9, 0x20AC }; return t[s.draw(13)]; } case 4: return 0x80 + (uint32_t)s.draw(0x780); default: { uint32_t c = 0x800 + (uint32_t)s.draw(0x10F800); return c >= 0xD800 && c < 0xE000 ? 0x4E2D : c; } }
  }
  inline std::vector<uint32_t> cps(pbt::Src& s, int mean = 5) { std::vector<uint32_t> r; while(s.more(mean) && r.size() < 40) r.push_back(codepoint(s)); return r; }
  inline std::string enc(const std::vector<uint32_t>& v) { std::string r; for(auto c : v) utf8(r, c); return r; }
  inline std::string str(pbt::Src& s) { return enc(cps(s)); }
  inline int64_t integer(pbt::Src& s) { switch(s.draw(4)) { case 0: return (int64_t)s.draw(20) - 10; case 1: { int64_t b = (int64_t)1 << s.draw(63); return (s.boolean() ? b : -b) + (int64_t)s.draw(3) - 1; } case 2: return (int64_t)s.bits64(); default: { static const int64_t t[] = { INT64_MAX, INT64_MIN, INT32_MAX, INT32_MIN, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 4294967295LL, 4294967296LL }; return t[s.draw(18)]; } } }
  inline double real(pbt::Src& s) { switch(s.draw(5)) { case 0: return ((double)(int64_t)s.draw(2000) - 1000) / 8; case 1: return ((double)(int64_t)s.draw(200000) - 100000) / 1000; case 2: { uint64_t b = s.bits64(); double d; memcpy(&d, &b, 8); return std::isfinite(d) ? d : 0.5; } case 3: { static const double t[] = { 0, 1, -1, 0.1, 1e20, -1e20, 1e-7, 1e300, DBL_MAX, DBL_MIN, 4.9e-324, 1.0 / 3, 3.0, 1e15, 1e16, 1e17, 123456789.125, -2.5 }; return t[s.draw(18)]; } default: return (double)(float)(((double)s.bits64() / 1e15) - 9000); } }
  inline Doc gen(pbt::Src& s, int depth, int& budget)
  {
    Doc d; --budget; int k = (int)s.pick({ 2, 5, 4, 5, 3, depth > 0 && budget > 0 ? 4 : 0, depth > 0 && budget > 0 ? 5 : 0 }); d.k = (Kind)k;
    switch(d.k) { case STR: d.s = str(s); break; case DBL: d.d = real(s); break; case INT: d.i = integer(s); break; case BOOL: d.b = s.boolean(); break; case ARR: while(s.more(3) && budget > 0) d.a.push_back(gen(s, depth - 1, budget)); break; case OBJ: while(s.more(3) && budget > 0) { std::string key = str(s); d.o.emplace_back(key, gen(s, depth - 1, budget)); } break; default: break; }
    return d;
  }
  inline size_t count(const Doc& d) { size_t n = 1; for(auto& x : d.a) n += count(x); for(auto& x : d.o) n += count(x.second); return n; }
  inline int depth(const Doc& d) { int n = 0; for(auto& x : d.a) n = std::max(n, depth(x)); for(auto& x : d.o) n = std::max(n, depth(x.second)); return n + 1; }
  // numbers compare by value: formats without a distinct real notation read 3.0 back as 3
  inline bool same(const Doc& a, const Doc& b)
  {
    auto num = [](const Doc& d) { return d.k == DBL || d.k == INT; };
    if(num(a) && num(b)) { if(a.k == INT && b.k == INT) return a.i == b.i; if(a.k == DBL && b.k == DBL) return a.d == b.d; const Doc& i = a.k == INT ? a : b; const Doc& d = a.k == INT ? b : a; return (double)i.i == d.d && (d.d < 9223372036854775807.0) && (int64_t)d.d == i.i; }
    if(a.k != b.k) return false;
    switch(a.k) { case STR: return a.s == b.s; case BOOL: return a.b == b.b; case ARR: { if(a.a.size() != b.a.size()) return false; for(size_t i = 0; i < a.a.size(); ++i) if(!same(a.a[i], b.a[i])) return false; return true; } case OBJ: { if(a.o.size() != b.o.size()) return false; for(size_t i = 0; i < a.o.size(); ++i) if(a.o[i].first != b.o[i].first || !same(a.o[i].second, b.o[i].second)) return false; return true; } default: return true; }
  }
  inline std::string ws(pbt::Src& s) { std::string r; if(s.chance(1, 3)) { int n = 1 + (int)s.draw(2); while(n--) r += " \t\n\r"[s.draw(4)]; } return r; }
  inline std::string jstr(pbt::Src& s, const std::string& v)
  { // v is valid UTF-8
    std::string r = "\""; char b[16];
    for(size_t i = 0; i < v.size();)
    {
      unsigned char c = v[i]; size_t n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; uint32_t u = n == 1 ? c : n == 2 ? (c & 31) << 6 | (v[i + 1] & 63) : n == 3 ? (c & 15) << 12 | (v[i + 1] & 63) << 6 | (v[i + 2] & 63) : (c & 7) << 18 | (v[i + 1] & 63) << 12 | (v[i + 2] & 63) << 6 | (v[i + 3] & 63);
      static const char* q = "\"\\/\b\f\n\r\t"; static const char* e = "\"\\/bfnrt"; const char* p = c < 0x80 && c ? strchr(q, c) : 0; bool must = u < 0x20 || u == '"' || u == '\\';
      if(p && (must || s.boolean()) && !s.chance(1, 6)) { r += '\\'; r += e[p - q]; }
      else if(must || s.chance(1, 8)) { const char* f = s.boolean() ? "\\u%04x" : "\\u%04X"; if(u < 0x10000) { snprintf(b, 16, f, u); r += b; } else { snprintf(b, 16, f, 0xD800 + ((u - 0x10000) >> 10)); r += b; snprintf(b, 16, f, 0xDC00 + ((u - 0x10000) & 0x3FF)); r += b; } }
      else r.append(v, i, n);
      i += n;
    }
    return r + "\"";
  }
  inline std::string jnum(pbt::Src& s, double d) { char b[400]; switch(s.draw(4)) { case 0: snprintf(b, sizeof(b), "%.17g", d); break; case 1: snprintf(b, sizeof(b), "%.17e", d); break; case 2: snprintf(b, sizeof(b), "%.17E", d); break; case 3: if(fabs(d) < 1e15 && (fabs(d) > 1e-3 || d == 0)) { snprintf(b, sizeof(b), "%.20f", d); double k = strtod(b, 0); if(k != d) snprintf(b, sizeof(b), "%.17g", d); } else snprintf(b, sizeof(b), "%.17g", d); break; } return b; }
  inline std::string json(pbt::Src& s, const Doc& d)
  {
    switch(d.k)
    {
    case NUL: return "null"; case STR: return jstr(s, d.s); case DBL: return jnum(s, d.d); case INT: return std::to_string(d.i); case BOOL: return d.b ? "true" : "false";
    case ARR: { std::string r = "[" + ws(s); for(size_t i = 0; i < d.a.size(); ++i) { if(i) r += "," + ws(s); r += json(s, d.a[i]) + ws(s); } return r + "]"; }
    case OBJ: { std::string r = "{" + ws(s); for(size_t i = 0; i < d.o.size(); ++i) { if(i) r += "," + ws(s); r += jstr(s, d.o[i].first) + ws(s) + ":" + ws(s) + json(s, d.o[i].second) + ws(s); } return r + "}"; }
    }
    return "";
  }
  // strict RFC 8259 reader
  struct Reader
  {
    const std::string& t; size_t p = 0; const char* err = 0; Reader(const std::string& x) : t(x) {}
    bool bad(const char* m) { if(!err) err = m; return false; } void sp() { while(p < t.size() && strchr(" \t\n\r", t[p]) && t[p]) ++p; } bool lit(const char* l) { size_t n = strlen(l); if(t.compare(p, n, l)) return bad("bad literal"); p += n; return true; }
    bool hex(uint32_t& u) { u = 0; for(int i = 0; i < 4; ++i, ++p) { if(p >= t.size() || !isxdigit((unsigned char)t[p])) return bad("bad \\u escape"); u = u * 16 + (isdigit((unsigned char)t[p]) ? t[p] - '0' : (t[p] | 32) - 'a' + 10); } return true; }
    bool string(std::string& r) { if(p >= t.size() || t[p] != '"') return bad("string expected"); ++p; while(p < t.size() && t[p] != '"') { unsigned char c = t[p++]; if(c < 0x20) return bad("raw control character in a string"); if(c != '\\') { r += (char)c; continue; } if(p >= t.size()) return bad("unterminated escape"); static const char* e = "\"\\/bfnrt"; static const char* q = "\"\\/\b\f\n\r\t"; char x = t[p++]; if(x == 'u') { uint32_t u, l; if(!hex(u)) return false; if(u >= 0xD800 && u < 0xDC00) { if(t.compare(p, 2, "\\u")) return bad("lone surrogate"); p += 2; if(!hex(l)) return false; u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00); } utf8(r, u); } else { const char* k = x ? strchr(e, x) : 0; if(!k) return bad("bad escape"); r += q[k - e]; } } if(p >= t.size()) return bad("unterminated string"); ++p; return true; }
    bool value(Doc& d)
    {
      sp(); if(p >= t.size()) return bad("value expected"); char c = t[p];
      if(c == '{') { d.k = OBJ; ++p; sp(); if(p < t.size() && t[p] == '}') { ++p; return true; } for(;;) { sp(); std::string k; if(!string(k)) return false; sp(); if(p >= t.size() || t[p] != ':') return bad("colon expected"); ++p; d.o.emplace_back(k, Doc()); if(!value(d.o.back().second)) return false; sp(); if(p < t.size() && t[p] == ',') { ++p; continue; } if(p < t.size() && t[p] == '}') { ++p; return true; } return bad("comma or closing brace expected"); } }
      if(c == '[') { d.k = ARR; ++p; sp(); if(p < t.size() && t[p] == ']') { ++p; return true; } for(;;) { d.a.emplace_back(); if(!value(d.a.back())) return false; sp(); if(p < t.size() && t[p] == ',') { ++p; continue; } if(p < t.size() && t[p] == ']') { ++p; return true; } return bad("comma or closing bracket expected"); } }
      if(c == '"') { d.k = STR; return string(d.s); } if(c == 't') { d.k = BOOL; d.b = true; return lit("true"); } if(c == 'f') { d.k = BOOL; d.b = false; return lit("false"); } if(c == 'n') { d.k = NUL; return lit("null"); }
      size_t b = p; if(t[p] == '-') ++p; if(p >= t.size() || !isdigit((unsigned char)t[p])) return bad("value expected"); if(t[p] == '0') ++p; else while(p < t.size() && isdigit((unsigned char)t[p])) ++p; bool real = false; if(p < t.size() && t[p] == '.') { real = true; ++p; if(p >= t.size() || !isdigit((unsigned char)t[p])) return bad("digits expected"); while(p < t.size() && isdigit((unsigned char)t[p])) ++p; } if(p < t.size() && (t[p] | 32) == 'e') { real = true; ++p; if(p < t.size() && (t[p] == '+' || t[p] == '-')) ++p; if(p >= t.size() || !isdigit((unsigned char)t[p])) return bad("digits expected"); while(p < t.size() && isdigit((unsigned char)t[p])) ++p; }
      std::string n = t.substr(b, p - b); if(real) { d.k = DBL; d.d = strtod(n.c_str(), 0); } else { errno = 0; d.i = strtoll(n.c_str(), 0, 10); d.k = INT; if(errno) { d.k = DBL; d.d = strtod(n.c_str(), 0); } } return true;
    }
    bool document(Doc& d) { if(!value(d)) return false; sp(); return p == t.size() || bad("text after the document"); }
  };
  inline std::string mutate(pbt::Src& s, std::string t)
  { // damage a document: truncation, deletions, insertions, swaps, repeated pieces
    int n = 1 + (int)s.draw(4); while(n--) { size_t k = t.empty() ? 0 : s.draw(t.size()); switch(s.draw(6)) { case 0: t.resize(k); break; case 1: if(!t.empty()) t.erase(k, 1 + s.draw(3)); break; case 2: { static const char c[] = "{}[]\",:\\/u0-+.eE ntf\0\xFF\x80'=#<>&;\n"; t.insert(k, 1, c[s.draw(sizeof(c) - 1)]); break; } case 3: if(!t.empty()) t[k] = (char)s.draw(256); break; case 4: if(!t.empty()) { size_t l = 1 + s.draw(12); t.insert(k, t.substr(s.draw(t.size()), l)); } break; case 5: if(!t.empty()) std::swap(t[k], t[s.draw(t.size())]); break; } } return t;
  }
  inline std::string show(const std::string& t, size_t mx = 300) { std::string r; char b[8]; for(unsigned char c : t) { if(r.size() > mx) { r += "..."; break; } if(c >= 32 && c < 127) r += (char)c; else { snprintf(b, 8, "\\x%02X", c); r += b; } } return r; }
}
