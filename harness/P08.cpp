// Static tries and string tables.
#include "tracked.h"
#include "bss-util/Trie.h"
#include "bss-util/StringTable.h"
#include <map>
#include <set>
#include <sstream>
using namespace bss;
using namespace trk;

static std::string word(pbt::Src& s, int alpha, int maxlen)
{
  std::string w; int l = (int)s.draw(maxlen + 1);
  for(int i = 0; i < l; ++i) { char c; switch(alpha) { case 0: c = (char)('a' + s.draw(2)); break; case 1: c = (char)('a' + s.draw(26)); break; case 2: c = "aAbBzZ[`@{"[s.draw(10)]; break; default: c = (char)(1 + s.draw(255)); } w += c; }
  return w;
}
static std::string fold(std::string w) { for(auto& c : w) if(c >= 'A' && c <= 'Z') c += 32; return w; }
template<class T, bool INS> static void trie(pbt::Src& s, size_t budget)
{
  int alpha = (int)s.draw(4); std::vector<std::string> words; std::map<std::string, size_t> ids; size_t used = 2; int maxlen = 1 + (int)s.draw(12);
  while(s.more() || words.empty())
  {
    std::string w = word(s, alpha, maxlen); if(words.size() && s.chance(1, 3)) w = words[s.draw(words.size())] + w; if(words.size() && s.chance(1, 6)) { auto& o = words[s.draw(words.size())]; w = o.substr(0, s.draw(o.size() + 1)); }
    if(w.size() > 200) continue; std::string k = INS ? fold(w) : w; if(ids.count(k)) { if(words.empty()) continue; else continue; }
    if(used + w.size() + 2 > budget || words.size() > 200) break; used += w.size() + 2; ids[k] = words.size(); words.push_back(w);
  }
  if(words.empty()) pbt::discard();
  std::vector<const char*> p; for(auto& w : words) { p.push_back(w.c_str()); s.note("word \"%s\"", w.c_str()); }
  std::unique_ptr<Trie<T, INS>> t(new Trie<T, INS>((T)p.size(), (const char* const*)p.data()));
  switch(s.draw(4)) { case 1: { std::unique_ptr<Trie<T, INS>> n(new Trie<T, INS>(*t)); t = std::move(n); break; } case 2: { std::unique_ptr<Trie<T, INS>> n(new Trie<T, INS>(std::move(*t))); t = std::move(n); break; } case 3: { const char* x[2] = { "q", "r" }; std::unique_ptr<Trie<T, INS>> n(new Trie<T, INS>((T)2, (const char* const*)x)); if(s.boolean()) *n = *t; else *n = std::move(*t); t = std::move(n); break; } }
  CHECK((size_t)t->Length() == words.size(), "Length");
  auto probe = [&](const std::string& w) { std::string k = INS ? fold(w) : w; auto it = ids.find(k); T e = it == ids.end() ? (T)-1 : (T)it->second; T g = t->Get(w.c_str()); CHECK(g == e, "Get(\"%s\") gave %lld expected %lld", w.c_str(), (long long)g, (long long)e); CHECK((*t)[w.c_str()] == e, "operator[]"); if(w.size() < 250) { std::string ext = w + "zz"; CHECK(t->Get(ext.c_str(), (T)w.size()) == e, "Get(\"%s\", len %zu) gave %lld expected %lld", ext.c_str(), w.size(), (long long)t->Get(ext.c_str(), (T)w.size()), (long long)e); } };
  for(auto& w : words) { probe(w); for(size_t i = 0; i <= w.size(); ++i) probe(w.substr(0, i)); probe(w + "a"); if(w.size()) { std::string x = w; x.back() ^= 1; if(x.back()) probe(x); x = w; x[0] ^= 0x20; if(x[0]) probe(x); } if(INS) { std::string x = w; for(auto& c : x) if(s.boolean() && c >= 'a' && c <= 'z') c -= 32; probe(x); } }
  for(int i = 0; i < 5; ++i) probe(word(s, alpha, maxlen + 1));
  if(words.size() >= 3) { size_t n = words.size(), a = s.draw(n), b = (a + 1 + s.draw(n - 1)) % n, c = a; for(size_t k = s.draw(n), i = 0; i < n && (c == a || c == b); ++i) c = (k + i) % n; std::vector<std::string> l = { words[a], words[b], words[c] }; Trie<T, INS> v((T)3, p[a], p[b], p[c]); CHECK(v.Length() == 3, "Length of a trie of listed words");
    for(auto& w : words) { std::string k = INS ? fold(w) : w; T e = (T)-1; for(size_t i = 0; i < 3; ++i) if((INS ? fold(l[i]) : l[i]) == k) e = (T)i; CHECK(v.Get(w.c_str()) == e, "a trie of three listed words gives %lld for \"%s\" instead of %lld", (long long)v.Get(w.c_str()), w.c_str(), (long long)e); } }
  s.nontrivial(words.size() >= 3); if(used > 100) s.label("more than 100 nodes"); if(alpha == 3) s.label("arbitrary bytes"); if(ids.count("")) s.label("empty word");
}
PROP(trie, 1, pbt::LEAKCHECK, "trie of >=3 distinct words, probed with words, prefixes, extensions and mutations")
{
  switch(s.draw(5)) { case 0: trie<uint8_t, false>(s, 240); break; case 1: trie<uint16_t, false>(s, 30000); break; case 2: trie<uint8_t, true>(s, 240); break; case 3: trie<uint32_t, true>(s, 100000); break; case 4: trie<size_t, false>(s, 100000); break; }
}
PROP(strtable, 1, pbt::LEAKCHECK, "string table history of >=3 operations over >=2 strings")
{
  typedef StringTable<char> S; std::vector<std::string> m; int alpha = (int)s.draw(4); int ops = 0; bool dumped = false;
  auto gen = [&](std::vector<std::string>& v, int lo) { int n = lo + (int)s.draw(6); for(int i = 0; i < n; ++i) v.push_back(word(s, alpha, 10)); };
  auto mk = [&](std::vector<std::string>& v) { std::vector<const char*> p; for(auto& w : v) p.push_back(w.c_str()); return new S((const char* const*)p.data(), p.size()); };
  gen(m, 0); std::unique_ptr<S> t(mk(m));
  if(s.chance(1, 4)) { m.resize(3); for(auto& w : m) if(w.empty()) w = word(s, alpha, 10); const char* p[3] = { m[0].c_str(), m[1].c_str(), m[2].c_str() }; t.reset(new S(p)); }
  while(s.more())
  {
    switch(s.draw(6))
    {
    case 0: { std::string w = word(s, alpha, 10); if(s.boolean()) t->AppendString(w.c_str()); else *t += w.c_str(); m.push_back(w); s.note("append \"%s\"", w.c_str()); break; }
    case 1: { std::vector<std::string> o; gen(o, 0); std::unique_ptr<S> ot(mk(o)); if(s.boolean()) *t += *ot; else { std::unique_ptr<S> n(new S(*t + *ot)); t = std::move(n); } m.insert(m.end(), o.begin(), o.end()); s.note("add table of %zu", o.size()); break; }
    case 2: { std::unique_ptr<S> n; if(s.boolean()) n.reset(new S(*t)); else { std::vector<std::string> o; gen(o, 0); n.reset(mk(o)); *n = *t; } t = std::move(n); break; }
    case 3: { std::unique_ptr<S> n(new S(std::move(*t))); CHECK(t->Length() == 0, "moved-from table not empty"); t->AppendString("x"); CHECK(t->Length() == 1 && !strcmp(t->GetString(0), "x"), "moved-from table is unusable"); t = std::move(n); break; }
    case 4: { if(m.empty()) continue; std::stringstream ss; t->DumpToStream(&ss); std::string d = ss.str(); std::string e; for(auto& w : m) { e += w; e += '\0'; } CHECK(d == e, "dump has %zu bytes expected %zu", d.size(), e.size()); std::stringstream in(d); std::unique_ptr<S> n(new S(&in, d.size())); t = std::move(n); dumped = true; s.note("dump and reload"); break; }
    case 5: { size_t tot = 0; for(auto& w : m) tot += w.size() + 1; CHECK(t->TotalWordCapacity() == tot, "total %zu expected %zu", (size_t)t->TotalWordCapacity(), tot); break; }
    }
    ++ops;
    CHECK(t->Length() == m.size(), "Length %zu expected %zu", (size_t)t->Length(), m.size());
    size_t off = 0; for(size_t i = 0; i < m.size(); ++i) { CHECK(t->GetIndices()[i] == off, "string %zu starts at %zu expected %zu", i, (size_t)t->GetIndices()[i], off); off += m[i].size() + 1; }
    for(size_t i = 0; i < m.size(); ++i) CHECK(m[i] == t->GetString(i) && m[i] == (*t)[i], "string %zu is \"%s\" expected \"%s\"", i, t->GetString(i), m[i].c_str());
  }
  s.nontrivial(ops >= 3 && m.size() >= 2); if(dumped) s.label("dump and reload");
}

PROP(strtable_wide, 0.3, pbt::LEAKCHECK, "wide string table of >=2 strings, built and read from a stream")
{
  typedef StringTable<wchar_t> S; std::vector<std::wstring> m; int n = (int)s.draw(7);
  for(int i = 0; i < n; ++i) { std::string w = word(s, 2, 8); std::wstring x; for(unsigned char c : w) x += (wchar_t)(c + (s.chance(1, 8) ? 0x4000 : 0)); m.push_back(x); }
  std::vector<const wchar_t*> p; for(auto& w : m) p.push_back(w.c_str());
  S t((const wchar_t* const*)p.data(), p.size()); size_t tot = 0; for(auto& w : m) tot += w.size() + 1;
  auto same = [&](S& x, const char* who) { CHECK(x.Length() == m.size() && x.TotalWordCapacity() == tot, "%s: %zu strings, %zu characters, expected %zu and %zu", who, (size_t)x.Length(), (size_t)x.TotalWordCapacity(), m.size(), tot); for(size_t i = 0; i < m.size(); ++i) CHECK(m[i] == x.GetString(i), "%s: string %zu", who, i); };
  same(t, "built"); S c(t); same(c, "copy");
  std::stringstream ss; for(auto& w : m) ss.write((const char*)w.c_str(), (w.size() + 1) * sizeof(wchar_t));
  if(n) { S r(&ss, tot * sizeof(wchar_t)); same(r, "reloaded"); }
  s.nontrivial(n >= 2);
}
