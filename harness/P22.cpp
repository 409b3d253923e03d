// Strings: Str behaves as the std::string it wraps, its splitting and trimming helpers and the C-string, command-line and formatting helpers match their reference.
// LIBS: bss_util_c.c ConvertUTF.c
// ASSUME: text contains no NUL; a string is not appended to itself through its own pointer; command lines have terminated quotes
#include "tracked.h"
#include "bss-util/Str.h"
#include "bss-util/bss_util.h"
#include <sstream>
#include <unistd.h>
using namespace bss;
typedef std::string S;
static S txt(pbt::Src& s, uint32_t mean = 6) { S r; int k = (int)s.draw(3); while(s.more(mean)) switch(k) { case 0: r += "ab, \t\n;"[s.draw(7)]; break; case 1: r += "abcxyz 019"[s.draw(10)]; break; default: { char c = (char)(1 + s.draw(255)); r += c; } } return r; }
static char chr(pbt::Src& s, const S& t) { return !t.empty() && s.chance(3, 4) ? t[s.draw(t.size())] : "ab, \t\n;\x80\xff"[s.draw(9)]; }
static S trim(const S& t) { size_t a = 0, b = t.size(); while(a < b && (unsigned char)t[a] < 33) ++a; while(b > a && (unsigned char)t[b - 1] < 33) --b; return t.substr(a, b - a); }
static std::vector<S> tokens(const S& t, const S& delim) { std::vector<S> r; S c; for(char x : t) { if(delim.find(x) != S::npos) { if(!c.empty()) r.push_back(c); c.clear(); } else c += x; } if(!c.empty()) r.push_back(c); return r; }
#define SAME(x, want, ...) do { S g_(x), w_(want); CHECK(g_ == w_ && g_.size() == strlen(g_.c_str()), __VA_ARGS__); } while(0)
PROP(strings, 4, pbt::LEAKCHECK, "at least four operations were applied")
{
  Str a[3]; S m[3]; int n = 0;
  while(s.more())
  {
    int i = (int)s.draw(3), j = (int)s.draw(3); S t = txt(s); ++n; int op = (int)s.draw(24); s.note("op %d on %d (%s) with %d, text %s", op, i, m[i].c_str(), j, t.c_str());
    switch(op)
    {
    case 0: if(s.chance(1, 5)) { a[j] += (const char*)0; switch(s.draw(3)) { case 0: a[i] = (const char*)0; break; case 1: a[i] = (const wchar_t*)0; break; default: a[i] = (const char32_t*)0; } m[i].clear(); Str z[5] = { Str((const char*)0), Str((const wchar_t*)0), Str((const char32_t*)0), Str((const wchar_t*)0, 5), Str((const char32_t*)0, 5) }; for(auto& q : z) SAME(q, S(""), "string from a null pointer"); break; } a[i] = t.c_str(); m[i] = t; break;
    case 1: a[i] += t.c_str(); m[i] += t; break;
    case 2: if(!t.empty()) { a[i] += t[0]; m[i] += t[0]; } break;
    case 3: if(m[i].size() + m[j].size() > 400) break; a[i] += a[j]; m[i] += S(m[j]); break;
    case 4: if(m[i].size() + m[j].size() > 400) break; { Str r = a[i] + a[j]; SAME(r, m[i] + m[j], "string + string"); CHECK(a[i] == m[i] && a[j] == m[j], "concatenation changed an operand"); a[(i + 1) % 3] = r; m[(i + 1) % 3] = m[i] + m[j]; break; }
    case 5: { Str r = a[i] + t.c_str(); SAME(r, m[i] + t, "string + text"); break; }
    case 6: { Str r = t.c_str() + a[i]; SAME(r, t + m[i], "text + string"); break; }
    case 7: if(!t.empty()) { Str r = a[i] + t[0]; SAME(r, m[i] + t[0], "string + character"); Str q = Str(a[i]) + t[0]; SAME(q, m[i] + t[0], "temporary + character"); Str p = t[0] + a[i]; SAME(p, S(1, t[0]) + m[i], "character + string"); Str o = t[0] + Str(a[i]); SAME(o, S(1, t[0]) + m[i], "character + temporary"); } else { a[i] += (const char*)0; Str z((const char*)0), y((const char*)0, 0); CHECK(z.empty() && y.empty(), "a string made of a null pointer is not empty"); Str x(a[i]); x = (const char*)0; CHECK(x.empty(), "assigning a null pointer leaves \"%s\"", x.c_str()); } break;
    case 8: { Str r = Str(a[i]) + Str(t.c_str()); SAME(r, m[i] + t, "temporary + temporary"); Str q = Str(a[i]) + t.c_str(); SAME(q, m[i] + t, "temporary + text"); Str p = a[i] + Str(t.c_str()); SAME(p, m[i] + t, "string + temporary"); Str k = Str(a[i]) + a[j]; SAME(k, m[i] + m[j], "temporary + string"); { Str big(a[i]); big.reserve(m[i].size() + s.draw(40)); Str big2(t.c_str()); big2.reserve(t.size() + s.draw(40)); Str g = std::move(big) + std::move(big2); SAME(g, m[i] + t, "temporaries with spare room"); } Str o = t.c_str() + Str(a[i]); SAME(o, t + m[i], "text + temporary"); break; }
    case 9: { Str r(a[i]); Str q(std::move(r)); SAME(q, m[i], "move construction"); a[j] = std::move(q); m[j] = S(m[i]); break; }
    case 10: if(i != j) { a[i] = a[j]; m[i] = m[j]; } break;
    case 11: { Str r = a[i].Trim(); SAME(r, trim(m[i]), "Trim"); CHECK(a[i] == m[i], "Trim changed the string"); if(s.boolean()) { a[i] = r; m[i] = trim(m[i]); } break; }
    case 12: { char f = chr(s, m[i]), r = chr(s, t); CHECK(&a[i].ReplaceChar(f, r) == &a[i], "ReplaceChar returns the string itself"); for(char& c : m[i]) if(c == f) c = r; break; }
    case 13: { char f = chr(s, m[i]); S w; for(char c : m[i]) if(c != f) w += c; SAME(Str::StripChar(m[i].c_str(), f), w, "StripChar"); break; }
    case 14: { char d = chr(s, m[i]); auto v = Str::Explode(d, m[i].c_str()); auto w = tokens(m[i], S(1, d)); CHECK(v.size() == w.size(), "Explode gives %zu parts instead of %zu", v.size(), w.size()); for(size_t k = 0; k < v.size(); ++k) SAME(v[k], w[k], "part %zu of Explode", k); CHECK(a[i] == m[i], "Explode changed its text"); break; }
    case 15: { S z; std::vector<S> w; while(s.more(3)) { S p = txt(s, 3); if(p.empty()) p = "x"; w.push_back(p); z += p; z += '\0'; } z += '\0'; std::vector<Str> v; Str::Explode(v, 0, z.data()); CHECK(v.size() == w.size(), "splitting at NUL gives %zu parts instead of %zu", v.size(), w.size()); for(size_t k = 0; k < v.size(); ++k) SAME(v[k], w[k], "part %zu", k); break; }
    case 16: { char d = chr(s, m[i]); uint16_t k = (uint16_t)s.draw(5); S w; size_t p = 0; bool ok = true; for(int q = 0; q < k && ok; ++q) { p = m[i].find(d, p); if(p == S::npos) ok = false; else ++p; } if(ok) w = m[i].substr(p, m[i].find(d, p) - p); Str r(k, m[i].c_str(), d); SAME(r, w, "chunk %u between '%c'", k, d); break; }
    case 17: { S d; do d += chr(s, m[i]); while(s.chance(1, 3)); std::vector<S> v; v.push_back("kept"); size_t r = Str::ParseTokens<S>(m[i].c_str(), d.c_str(), v, [](const char* x) { return S(x); }); auto w = tokens(m[i], d); CHECK(r == v.size() && v.size() == w.size() + 1 && v[0] == "kept", "ParseTokens gives %zu tokens (returns %zu) instead of %zu", v.size() - 1, r, w.size()); for(size_t k = 0; k < w.size(); ++k) CHECK(v[k + 1] == w[k], "token %zu is %s instead of %s", k, v[k + 1].c_str(), w[k].c_str()); break; }
    case 18: { int x = (int)s.bits64(); char buf[1024]; snprintf(buf, 1024, "%s|%d|%s|%08x|%5.2f", m[i].c_str(), x, t.c_str(), x, x / 8.0); SAME(StrF("%s|%d|%s|%08x|%5.2f", m[i].c_str(), x, t.c_str(), x, x / 8.0), buf, "StrF"); break; }
    case 19: { size_t k = s.draw(m[i].size() + 1); Str r(a[i].c_str(), k); SAME(r, m[i].substr(0, k), "construction from %zu characters", k); break; }
    case 20: if(!m[i].empty()) { size_t k = s.draw(m[i].size()); char c = chr(s, t); a[i].GetChar(k) = c; m[i][k] = c; } break;
    case 21: if(!m[i].empty()) { size_t k = s.draw(m[i].size()); a[i].UnsafeString()[k] = 0; a[i].RecalcSize(); m[i].resize(k); } break;
    case 22: { int64_t x = (int64_t)s.bits64(); CHECK(ToString(x) == std::to_string(x), "ToString of a number"); CHECK(&ToString(a[i]) == &a[i], "ToString of a string is the string"); break; }
    default: { typedef StrT<char32_t> U; std::u32string u; for(char c : m[i]) u += (char32_t)(unsigned char)c; char32_t d = (unsigned char)chr(s, m[i]); auto v = U::Explode(d, u.c_str()); auto w = tokens(m[i], S(1, (char)d)); CHECK(v.size() == w.size(), "splitting a char32_t string gives %zu parts instead of %zu", v.size(), w.size()); for(size_t k = 0; k < v.size(); ++k) { S g; for(char32_t c : v[k]) g += (char)c; CHECK(g == w[k], "part %zu of a char32_t string", k); } U r(std::u32string(u + U" ")); S g; U rt = r.Trim(); for(char32_t c : rt) g += (char)c; CHECK(g == trim(m[i]), "Trim of a char32_t string"); }
    }
    for(int k = 0; k < 3; ++k) CHECK(a[k] == m[k] && a[k].size() == m[k].size() && !strcmp(a[k], m[k].c_str()), "string %d is \"%s\" instead of \"%s\"", k, a[k].c_str(), m[k].c_str());
  }
  s.nontrivial(n >= 4);
}
static S cut(const char* p) { return p; }
PROP(ctext, 3, 0, "the text has at least two characters")
{
  S t = txt(s); char f = chr(s, t), r = chr(s, t); s.note("text \"%s\"", t.c_str()); s.nontrivial(t.size() > 1); std::unique_ptr<char[]> b(new char[t.size() + 1]); memcpy(b.get(), t.c_str(), t.size() + 1);
  switch(s.draw(5))
  {
  case 0: { S w = t; for(char& c : w) if(c == f) c = r; CHECK(strreplace<char>(b.get(), f, r) == b.get() && cut(b.get()) == w, "strreplace gives \"%s\"", b.get()); break; }
  case 1: { size_t k = 0, n = s.draw(t.size() + 1), kn = 0; for(size_t i = 0; i < t.size(); ++i) if(t[i] == f) { ++k; kn += i < n; } CHECK(strccount<char>(b.get(), f) == k, "strccount"); CHECK(strccount<char>(b.get(), f, n) == kn, "strccount of %zu characters", n); break; }
  case 2: { const char* p = strltrim<const char>(b.get()); CHECK(t.substr(t.size() - strlen(p)) == p && p - b.get() == (long)(t.size() - strlen(p)), "strltrim"); size_t a = 0; while(a < t.size() && (unsigned char)t[a] < 33) ++a; CHECK((size_t)(p - b.get()) == a, "strltrim removes %zd characters instead of %zu", p - b.get(), a); break; }
  case 3: { size_t e = t.size(); while(e && (unsigned char)t[e - 1] < 33) --e; CHECK(strrtrim<char>(b.get()) == b.get() && cut(b.get()) == t.substr(0, e), "strrtrim gives \"%s\"", b.get()); break; }
  default: CHECK(cut(strtrim<char>(b.get())) == trim(t), "strtrim gives \"%s\"", b.get());
  }
}
PROP(search, 2, 0, "the needle is not longer than the text")
{
  S t, f; int k = 1 + (int)s.draw(3); while(s.more()) t += (char)s.draw(k + 1); if(s.boolean() && !t.empty()) { size_t i = s.draw(t.size()); f = t.substr(i, 1 + s.draw(t.size() - i)); } else while(s.more(3)) f += (char)s.draw(k + 1);
  std::unique_ptr<char[]> a(new char[t.size() + 1]), b(new char[f.size()]); memcpy(a.get(), t.data(), t.size()); a[t.size()] = f.empty() ? 0 : f.back(); memcpy(b.get(), f.data(), f.size()); s.nontrivial(!f.empty() && f.size() <= t.size());
  std::unique_ptr<char[]> x(new char[t.size()]); memcpy(x.get(), t.data(), t.size()); size_t w = f.empty() ? S::npos : t.find(f); const void* r = ByteSearch((const void*)x.get(), t.size(), (const void*)b.get(), f.size()); s.note("%zu bytes in %zu bytes: expected at %zd", f.size(), t.size(), (ssize_t)w);
  CHECK(w == S::npos ? !r : r == x.get() + w, "found at %zd instead of %zd", r ? (const char*)r - x.get() : (ssize_t)-1, (ssize_t)w);
}
PROP(integers, 2, 0, "the number does not fit one digit")
{
  int v = (int)s.edgy(INT32_MIN, INT32_MAX); if(s.chance(1, 3)) v = (int)s.range(-300, 300); unsigned radix = s.boolean() ? 10 : 2 + (unsigned)s.draw(35); uint64_t u = v < 0 ? 0 - (uint64_t)(int64_t)v : (uint64_t)v; S w; do { w.insert(0, 1, "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[u % radix]); u /= radix; } while(u); if(v < 0) w.insert(0, 1, '-');
  int size = s.chance(1, 3) ? (int)s.draw(40) : (int)w.size() + 1 + (int)s.draw(3); std::unique_ptr<char[]> b(new char[size ? size : 1]); s.note("%d in base %u into %d bytes: %s", v, radix, size, w.c_str()); s.nontrivial(w.size() > 1);
  int r = itoa_r(v, b.get(), size, radix); if(size <= 1) { CHECK(r != 0, "a buffer of %d bytes was accepted", size); return; } CHECK(r == 0, "itoa_r failed"); CHECK(memchr(b.get(), 0, size), "no terminator inside the buffer"); if((size_t)size > w.size()) CHECK(cut(b.get()) == w, "itoa_r gives %s", b.get()); CHECK(itoa_r(v, b.get(), size, 1) && itoa_r(v, nullptr, size, 10), "invalid arguments were accepted");
}
PROP(commandline, 3, 0, "at least two arguments")
{
  std::vector<S> args; S line; bool more = s.more(4); while(s.chance(1, 3)) line += " \t"[s.draw(2)];
  while(more) { S a; bool q = s.chance(1, 3); uint32_t k = (uint32_t)s.draw(4); while(s.more(4)) { char c = q ? "ab -/\"\t="[s.draw(8)] : "ab-/=\"1"[s.draw(7)]; if(q && !a.empty() && a.back() == '"' && isspace((unsigned char)c)) c = 'x'; a += c; } if(!q) { if(a.empty()) a = "x"; if(a[0] == '"') a[0] = 'y'; } if(k == 0) a.insert(0, 1, '-');
    args.push_back(a); line += q ? "\"" + a + "\"" : a; more = s.more(4); int sp = 0; if(more || s.chance(1, 4)) do line += " \t\n"[s.draw(3)]; while(s.chance(1, 4) && ++sp < 4); }
  s.note("command line: %s", line.c_str()); s.nontrivial(args.size() > 1); std::unique_ptr<char[]> b(new char[line.size() + 1]); memcpy(b.get(), line.c_str(), line.size() + 1);
  int n = ToArgV<char>((char**)0, b.get()); CHECK(n == (int)args.size(), "%d arguments counted instead of %zu", n, args.size()); CHECK(!strcmp(b.get(), line.c_str()), "counting changed the text"); std::unique_ptr<char*[]> argv(new char*[n ? n : 1]);
  CHECK(ToArgV<char>(argv.get(), b.get()) == n, "splitting gives another number of arguments"); for(int i = 0; i < n; ++i) CHECK(args[i] == argv[i], "argument %d is \"%s\" instead of \"%s\"", i, argv[i], args[i].c_str());
  std::vector<std::vector<S>> g, w; for(auto& a : args) { if(w.empty() || (a[0] == '-')) w.emplace_back(); w.back().push_back(a); } ProcessCmdArgs(n, argv.get(), [&](const char* const* p, int k) { g.emplace_back(); for(int i = 0; i < k; ++i) g.back().push_back(p[i]); }); CHECK(g == w, "ProcessCmdArgs gives %zu groups instead of %zu", g.size(), w.size());
}
PROP(format, 3, 0, "the format has at least one placeholder")
{
  S f, w; S p[4] = { "zero", txt(s, 3), "", "three" }; int64_t i4 = (int64_t)s.bits64(); int np = 0; char last = 0; auto lit = [&](char c) { f += c; w += c; };
  while(s.more(5)) { if(s.boolean()) { int n = s.chance(1, 6) ? (int)s.draw(100) : (int)s.draw(6); char ph[12]; snprintf(ph, 12, s.chance(1, 5) ? "{%02d}" : "{%d}", n); f += ph; ++np; w += n < 4 ? p[n] : n == 4 ? std::to_string(i4) : n == 5 ? "x" : "{INVALID PARAMETER " + std::to_string(n) + "}"; last = 0; } else { char c = "ab{}%0\\ "[s.draw(8)]; if(c == '}' || c == '0') { if(last == '{' || last == 'd') c = '.'; } last = c == '{' ? '{' : 0; if(last == 0 && c == '0') last = 0; lit(c); } }
  s.note("format %s", f.c_str()); s.nontrivial(np > 0); std::ostringstream o; SafeFormat(o, f.c_str(), p[0].c_str(), p[1], p[2].c_str(), p[3], i4, 'x'); CHECK(o.str() == w, "SafeFormat gives \"%s\" instead of \"%s\"", o.str().c_str(), w.c_str());
}
PROP(files, 1, 0, "a file was written and loaded")
{
  S t; bool bin = s.boolean(); while(s.more(40)) t += (char)s.draw(bin ? 256 : 2); char path[64]; snprintf(path, 64, "/tmp/vp-p22-%d", (int)getpid()); FILE* f = fopen(path, "wb"); if(!f) pbt::discard(); fwrite(t.data(), 1, t.size(), f); fclose(f); s.nontrivial(true);
  auto a = bssLoadFile<char>(path); auto b = bssLoadFile<char, true>(path); remove(path);
  CHECK(a.second == t.size() && !memcmp(a.first.get(), t.data(), t.size()), "bssLoadFile"); CHECK(b.second == t.size() + 1 && !memcmp(b.first.get(), t.c_str(), t.size() + 1), "terminated bssLoadFile"); auto c = bssLoadFile<char>(path); CHECK(!c.first && !c.second, "a missing file was loaded");
}
