// INI: files are read as their sections and entries, and every edit history keeps the object, its copies and the saved file in step.
// LIBS: INIstorage.cpp INIsection.cpp INIentry.cpp INIParser.c bss_util.cpp bss_util_c.c ConvertUTF.c
// ASSUME: lines shorter than 1000 bytes without NUL; names that are edited are not blank and keep clear of the format's own characters ([ ] ; = line breaks); values contain no semicolon or line break and no blanks at either end
#include "tracked.h"
#include "doc.h"
#include "bss-util/INIstorage.h"
#include "bss-util/INIparse.h"
#include <unistd.h>
#include <strings.h>
#include <map>
using namespace bss;
using doc::show;
typedef std::string S;
// sections with equal names (ignoring case) are grouped in the order of first appearance, and so are the entries of a section
struct Ent { S key; std::vector<std::pair<S, S>> v; };
struct Sec { S name; std::vector<Ent> e; };
struct Grp { S name; std::vector<Sec> s; };
typedef std::vector<Grp> Ini;
static bool ieq(const S& a, const S& b) { return !strcasecmp(a.c_str(), b.c_str()); }
static Grp* grp(Ini& m, const S& n) { for(auto& g : m) if(ieq(g.name, n)) return &g; return 0; }
static Ent* ent(Sec& s, const S& k) { for(auto& e : s.e) if(ieq(e.key, k)) return &e; return 0; }
static Sec& addsec(Ini& m, const S& n) { Grp* g = grp(m, n); if(!g) { m.emplace_back(); g = &m.back(); g->name = n; } g->s.push_back({ n, {} }); return g->s.back(); }
static void addent(Sec& s, const S& k, const S& v) { Ent* e = ent(s, k); if(!e) { s.e.emplace_back(); e = &s.e.back(); e->key = k; } e->v.emplace_back(k, v); }
static S word(pbt::Src& s, const char* extra) { S r; static const char* t[] = { "a", "b", "ab", "abc", "A", "B", "key", "Key", "keyring", "1", "2", "12", "a very long name that does not fit inline", "A Very long name that does not fit inline" }; if(s.chance(3, 4)) return t[s.draw(14)]; do { if(s.chance(1, 5)) r += s.boolean() ? "\xC3\xA9" : "\xE2\x82\xAC"; else { const char* c = s.boolean() ? extra : "abzAZ019_-."; r += c[s.draw(strlen(c))]; } } while(s.more(4) && r.size() < 40); while(!r.empty() && (unsigned char)r.back() <= 32) r.pop_back(); while(!r.empty() && (unsigned char)r[0] <= 32) r.erase(0, 1); bool ascii = false; for(unsigned char c : r) ascii |= c > 32 && c < 128; return ascii ? r : "a" + r; }
static S name(pbt::Src& s) { return word(s, " !\"#$%&'()*+,/:<>?@^`{|}~"); }
static S val(pbt::Src& s) { switch(s.draw(5)) { case 0: return ""; case 1: return std::to_string((int64_t)doc::integer(s)); case 2: { S r; int n = 1 + (int)s.draw(60); while(n--) r += "abc =[]\"'\\x"[s.draw(11)]; while(!r.empty() && r.back() == ' ') r.pop_back(); while(!r.empty() && r[0] == ' ') r.erase(0, 1); return r; } default: return word(s, " =[]!\"#$%&'()*+,/:<>?@^`{|}~"); } }
static S sp(pbt::Src& s) { return s.chance(1, 4) ? (s.boolean() ? " " : "\t ") : ""; }
static int uid;
static S comment(pbt::Src& s) { S r = ";c" + std::to_string(uid++) + "!"; if(s.boolean()) r += s.boolean() ? " a=b" : " [x] ; y"; return r; }
static S lines(pbt::Src& s, Ini& m, int mx, std::vector<std::pair<S, int>>* notes)
{ // text of an INI file and what it says
  S t, e = s.chance(1, 5) ? "\r\n" : "\n"; Sec* cur = 0; int n = 0, secs = 0; int curid = -1;
  while(s.more(10) && n++ < mx)
  {
    switch(s.pick({ 6, 3, 1, 1, 1 }))
    {
    case 0: { S k = name(s), v = val(s); if(!cur) { cur = &addsec(m, ""); curid = -2; } t += sp(s) + k + sp(s) + "=" + sp(s) + v + sp(s); if(s.chance(1, 6)) t += comment(s); addent(*cur, k, v); break; }
    case 1: { S k = name(s); t += sp(s) + "[" + sp(s) + k + sp(s) + "]"; if(s.chance(1, 6)) t += sp(s) + comment(s); cur = &addsec(m, k); curid = secs++; break; }
    case 2: { S c = comment(s); t += sp(s) + c; if(notes) notes->emplace_back(c.substr(0, c.find('!') + 1), curid); break; }
    case 3: break;
    case 4: { static const char* g[] = { "garbage", "=novalue", "  = x", "[]", ";", "no key", "] x", "\xC3\xA9" }; t += g[s.draw(8)]; break; }
    }
    t += e;
  }
  if(!t.empty() && s.chance(1, 3)) t.resize(t.size() - e.size()); return t;
}
static bool same(const INIentry* e, const S& k, const S& v) { return e && k == e->GetKey() && v == e->GetString(); }
// order: whether iteration must follow the groups of the model (a file lists repeated names wherever they were added)
static S diff(Ini& m, INIstorage& ini, const INIstorage* owner, bool order = true)
{
  size_t total = 0; INIstorage& c = ini; auto it = ini.begin(), end = ini.end(); const INIstorage::_NODE* back = 0;
  for(auto& g : m)
  {
    if(ini.GetNumSections(g.name.c_str()) != g.s.size()) return "number of sections named " + g.name + " is " + std::to_string(ini.GetNumSections(g.name.c_str())) + " instead of " + std::to_string(g.s.size()); S up = g.name; for(auto& x : up) if(x >= 'a' && x <= 'z') x -= 32; if(ini.GetSection(g.name.c_str(), g.s.size())) return "a section too many named " + g.name;
    for(size_t i = 0; i < g.s.size(); ++i)
    {
      INIsection* p = ini.GetSection(g.name.c_str(), i); S at = "[" + g.name + "] #" + std::to_string(i); if(!p) return at + " missing"; if(p != ini.GetSection(up.c_str(), i)) return at + " depends on the case of its name"; if(g.s[i].name != p->GetName()) return at + " is named " + p->GetName(); if(p->GetIndex() != i) return at + " has index " + std::to_string(p->GetIndex()); if(p->GetParent() != owner) return at + " belongs to another object"; if(!(it != end) || (order && &*it != p)) return at + " is not where iteration reaches it"; back = ini.GetSectionNode(g.name.c_str(), i); ++it; if(i == 0 && &c[g.name.c_str()] != p) return at + " operator[]"; ++total;
      auto ei = p->begin(); size_t n = 0; const INIsection::_NODE* eb = 0;
      for(auto& e : g.s[i].e) { if(p->GetNumEntries(e.key.c_str()) != e.v.size()) return at + " has " + std::to_string(p->GetNumEntries(e.key.c_str())) + " entries " + show(e.key) + " instead of " + std::to_string(e.v.size()); if(p->GetEntryPtr(e.key.c_str(), e.v.size())) return at + " entry too many " + show(e.key); for(size_t j = 0; j < e.v.size(); ++j, ++n) { INIentry* x = ini.GetEntryPtr(g.name.c_str(), e.key.c_str(), j, i); if(!same(x, e.v[j].first, e.v[j].second)) return at + " " + show(e.key) + " #" + std::to_string(j) + " is " + (x ? show(S(x->GetKey()) + "=" + x->GetString()) : "missing") + " instead of " + show(e.v[j].first + "=" + e.v[j].second); if(x != p->GetEntryPtr(e.key.c_str(), j) || x != &p->GetEntry(e.key.c_str(), j) || x != &ini.GetEntry(g.name.c_str(), e.key.c_str(), j, i)) return at + " lookups disagree"; if(!(ei != p->end()) || (order && &*ei != x)) return at + " entry iteration"; eb = p->GetEntryNode(e.key.c_str(), j); ++ei; } }
      if(ei != p->end()) return at + " has surplus entries in iteration"; if(order && p->Back() != eb) return at + " wrong last entry"; if(p->GetEntry("no such key").IsValid() || p->GetEntryPtr("no such key")) return at + " has an entry it should not have";
    }
  }
  if(it != end) return "surplus sections in iteration"; if(order && ini.Back() != back) return "wrong last section"; if(ini.GetSection("no such section") || ini.GetNumSections("no such section") || ini["no such section"].GetEntry("a").IsValid()) return "a section that does not exist was found"; return "";
}
static void warm() { static bool done = false; if(done) return; done = true; S t; for(int i = 0; i < 400; ++i) t += "[w" + std::to_string(i) + "]\na=1\nb=2\nc=3\n"; FILE* f = fmemopen((void*)t.data(), t.size(), "rb"); INIstorage w(f); INIstorage x(w), y(w), z(w); fclose(f); } // the node pools are process-wide: fill them before leaks are counted
extern "C" void pbt_setup() { warm(); }
static S path() { return "/tmp/vp-p20-" + std::to_string(getpid()) + ".ini"; }
struct File { S p; File(const S& t) : p(path()) { put(t); } ~File() { unlink(p.c_str()); } void put(const S& t) { FILE* f = fopen(p.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f); } S get() { S r; FILE* f = fopen(p.c_str(), "rb"); if(!f) return "<no file>"; char b[4096]; size_t n; while((n = fread(b, 1, 4096, f))) r.append(b, n); fclose(f); return r; } };
static size_t size(const Ini& m) { size_t n = 0; for(auto& g : m) for(auto& x : g.s) { ++n; for(auto& e : x.e) n += e.v.size(); } return n; }
PROP(loading, 2, pbt::LEAKCHECK, ">=4 sections and entries")
{
  Ini m; S t = lines(s, m, 60, 0); s.nontrivial(size(m) >= 4); s.note("%s", show(t, 500).c_str()); S e;
  if(t.size() && s.boolean()) { FILE* f = fmemopen((void*)t.data(), t.size(), "rb"); INIstorage ini(f); fclose(f); e = diff(m, ini, &ini); } else { File f(t); INIstorage ini(f.p.c_str()); e = diff(m, ini, &ini); CHECK(f.get() == t, "loading changed the file"); }
  CHECK(e.empty(), "%s: %s", e.c_str(), show(t, 900).c_str());
  // the text-search functions find the same sections and entries
  for(auto& g : m) for(size_t i = 0; i <= g.s.size(); ++i) if(!g.name.empty()) { INICHUNK c = bssFindINISection(t.c_str(), t.size(), g.name.c_str(), i); CHECK(!!c.start == (i < g.s.size()), "section %s #%zu %s: %s", show(g.name).c_str(), i, c.start ? "found" : "not found", show(t, 900).c_str()); if(!c.start) continue; CHECK(c.start >= t.c_str() && c.end <= t.c_str() + t.size() && c.start <= c.end, "section range outside the text"); for(auto& k : g.s[i].e) for(size_t j = 0; j <= k.v.size(); ++j) { INICHUNK x = bssFindINIEntry(c, k.key.c_str(), j); CHECK(!!x.start == (j < k.v.size()), "entry %s #%zu of [%s] #%zu %s: %s", show(k.key).c_str(), j, show(g.name).c_str(), i, x.start ? "found" : "not found", show(t, 900).c_str()); if(x.start) { S got((const char*)x.start, (const char*)x.end); size_t q = got.find('='); CHECK(q != S::npos && S(got, 0, k.v[j].first.size()) == k.v[j].first, "entry %s #%zu is %s", show(k.key).c_str(), j, show(got).c_str()); S v = got.substr(q + 1); while(!v.empty() && (unsigned char)v.back() <= 32) v.pop_back(); while(!v.empty() && (unsigned char)v[0] <= 32) v.erase(0, 1); CHECK(v == k.v[j].second, "value of %s #%zu is %s instead of %s", show(k.key).c_str(), j, show(v).c_str(), show(k.v[j].second).c_str()); } } }
}
PROP(editing, 4, pbt::LEAKCHECK, ">=5 edits that succeed, at least one removal")
{
  Ini m; std::vector<std::pair<S, int>> notes; S t0 = lines(s, m, s.boolean() ? 5 : 30, &notes); File f(t0); s.note("file %s", show(t0, 300).c_str()); std::unique_ptr<INIstorage> ini(new INIstorage(f.p.c_str())); bool secremoved = false; int ok = 0, rem = 0, ops = 0; S log;
  auto anysec = [&](S& n, size_t& i) { if(m.empty() || s.chance(1, 12)) { n = name(s); i = s.draw(2); return; } auto& g = m[s.draw(m.size())]; n = g.name; if(s.chance(1, 4)) for(auto& c : n) if(c >= 'a' && c <= 'z') c -= 32; i = s.draw(g.s.size() + (s.chance(1, 10) ? 1 : 0)); };
  auto saved = [&](const char* what) { S t = f.get(); INIstorage r(f.p.c_str()); S e = diff(m, r, &r, false); CHECK(e.empty(), "%s: the file differs from the object: %s; file: %s; operations:%s; originally %s", what, e.c_str(), show(t, 900).c_str(), log.c_str(), show(t0, 600).c_str()); if(!secremoved) for(auto& n : notes) CHECK(t.find(n.first) != S::npos, "%s: comment %s lost; file: %s; operations:%s", what, n.first.c_str(), show(t, 900).c_str(), log.c_str()); };
  while(s.more(12) && ops < 60)
  {
    ++ops; S n, k, v; size_t si = 0;
    switch(s.pick({ 2, 2, 6, 4, 4, 2, 2, 2, 1, 1 }))
    {
    case 0: n = name(s); log += " add[" + n + "]"; { INIsection& p = ini->AddSection(n.c_str()); Sec& q = addsec(m, n); (void)q; Grp* g = grp(m, n); CHECK(&p == ini->GetSection(n.c_str(), g->s.size() - 1), "AddSection returned another section"); ++ok; } break;
    case 1: { anysec(n, si); if(n.empty()) break; log += " remove[" + n + "]#" + std::to_string(si); Grp* g = grp(m, n); bool want = g && si < g->s.size(); bool got = ini->RemoveSection(n.c_str(), si); CHECK(got == want, "RemoveSection(%s, %zu) returned %d; operations:%s; file %s", show(n).c_str(), si, (int)got, log.c_str(), show(t0, 600).c_str()); if(want) { ++ok; ++rem; secremoved = true; g->s.erase(g->s.begin() + si); if(g->s.empty()) m.erase(m.begin() + (g - m.data())); else g->name = g->s[0].name; } break; }
    case 2: { anysec(n, si); if(n.empty()) break; k = name(s); v = val(s); bool newsec = s.chance(1, 8); log += " insert[" + n + "]#" + (newsec ? "new" : std::to_string(si)) + " " + k + "=" + v; Grp* g = grp(m, n); bool want = newsec || (g && si < g->s.size()); bool null = s.chance(1, 12); char r = ini->EditEntry(n.c_str(), k.c_str(), null ? 0 : v.c_str(), (size_t)~0, newsec ? (size_t)~0 : si); CHECK((r == 0) == want, "inserting %s into [%s] #%zu returned %d; operations:%s; file %s", show(k).c_str(), show(n).c_str(), si, (int)r, log.c_str(), show(t0, 600).c_str()); if(want) { ++ok; addent(newsec ? addsec(m, n) : g->s[si], k, null ? S() : v); } break; }
    case 3: case 4: { anysec(n, si); if(n.empty()) break; Grp* g = grp(m, n); size_t ki = 0; Ent* e = 0; if(g && si < g->s.size() && !g->s[si].e.empty() && !s.chance(1, 12)) { e = &g->s[si].e[s.draw(g->s[si].e.size())]; k = e->key; ki = s.draw(e->v.size() + (s.chance(1, 10) ? 1 : 0)); if(ki >= e->v.size()) e = 0; } else { k = name(s); e = g && si < g->s.size() ? ent(g->s[si], k) : 0; } bool del = s.boolean(); v = val(s); log += (del ? " delete[" : " edit[") + n + "]#" + std::to_string(si) + " " + k + "#" + std::to_string(ki) + (del ? "" : "=" + v); char r = ini->EditEntry(n.c_str(), k.c_str(), del ? 0 : v.c_str(), ki, si); CHECK((r == 0) == !!e, "%s %s #%zu of [%s] #%zu returned %d; operations:%s; file %s", del ? "deleting" : "editing", show(k).c_str(), ki, show(n).c_str(), si, (int)r, log.c_str(), show(t0, 600).c_str()); if(e) { ++ok; if(!del) e->v[ki].second = v; else { ++rem; e->v.erase(e->v.begin() + ki); auto& es = g->s[si].e; if(e->v.empty()) es.erase(es.begin() + (e - es.data())); else e->key = e->v[0].first; } } break; }
    case 5: { anysec(n, si); if(n.empty()) break; Grp* g = grp(m, n); if(g && si >= g->s.size()) break; k = g && si < g->s.size() && !g->s[si].e.empty() && s.boolean() ? g->s[si].e[s.draw(g->s[si].e.size())].key : name(s); v = val(s); if(!g) si = 0; log += " editadd[" + n + "]#" + std::to_string(si) + " " + k + "=" + v; char r = ini->EditAddEntry(n.c_str(), k.c_str(), v.c_str(), 0, si); CHECK(r == 0, "EditAddEntry(%s, %s) returned %d", show(n).c_str(), show(k).c_str(), (int)r); ++ok; Sec& q = g ? g->s[si] : addsec(m, n); Ent* e = ent(q, k); if(e) e->v[0].second = v; else addent(q, k, v); break; }
    case 6: log += " save"; ini->EndINIEdit(); if(ok) saved("after saving"); break;
    case 7: log += " copy"; { std::unique_ptr<INIstorage> c; if(s.boolean()) c.reset(new INIstorage(*ini)); else { c.reset(new INIstorage(f.p.c_str())); *c = *ini; } S e = diff(m, *c, c.get()); CHECK(e.empty(), "copy differs: %s; operations:%s; file %s", e.c_str(), log.c_str(), show(t0, 600).c_str()); e = diff(m, *ini, ini.get()); CHECK(e.empty(), "copying changed the source: %s; operations:%s; file %s", e.c_str(), log.c_str(), show(t0, 600).c_str()); if(s.boolean()) ini.swap(c); } break;
    case 8: log += " move"; { std::unique_ptr<INIstorage> c; if(s.boolean()) c.reset(new INIstorage(std::move(*ini))); else { c.reset(new INIstorage(f.p.c_str())); *c = std::move(*ini); } ini.swap(c); } break;
    case 9: { Grp* g = m.empty() ? 0 : &m[s.draw(m.size())]; if(!g) break; log += " section copy"; si = s.draw(g->s.size()); INIsection c(*ini->GetSection(g->name.c_str(), si)), d; d = c; INIsection x(std::move(c)); c = std::move(d); for(auto& e : g->s[si].e) for(size_t j = 0; j < e.v.size(); ++j) CHECK(same(x.GetEntryPtr(e.key.c_str(), j), e.v[j].first, e.v[j].second) && same(c.GetEntryPtr(e.key.c_str(), j), e.v[j].first, e.v[j].second), "copied section differs at %s #%zu", show(e.key).c_str(), j); break; }
    }
    S e = diff(m, *ini, ini.get()); CHECK(e.empty(), "%s; operations:%s; file %s", e.c_str(), log.c_str(), show(t0, 900).c_str());
  }
  s.nontrivial(ok >= 5 && rem); s.note("%s", log.c_str()); if(ok) { ini->EndINIEdit(); saved("at the end"); } else CHECK(f.get() == t0, "the file changed although nothing was edited");
}
PROP(values, 1, pbt::LEAKCHECK, "number with more than one digit")
{
  char b[80]; S t; int64_t i = 0; double d = 0; bool approx = false;
  switch(s.draw(5)) { case 0: i = doc::integer(s); t = std::to_string(i); d = (double)i; break; case 1: { uint64_t u = (uint64_t)doc::integer(s); snprintf(b, 80, s.boolean() ? "0x%llx" : "0X%llX", (unsigned long long)u); t = b; i = (int64_t)u; d = (double)u; break; } case 2: d = (double)((int64_t)s.bits64() >> s.draw(40)) / 1024; snprintf(b, 80, "%.12f", d); t = b; d = strtod(b, 0); i = (int64_t)d; break; case 3: t = word(s, " "); if(isdigit((unsigned char)t[0]) || strchr("+-.", t[0])) t = "x" + t; break; case 4: t = ""; break; }
  s.note("%s", t.c_str()); s.nontrivial(t.size() > 1 && (i > 9 || i < -9 || d != (double)i)); (void)approx; INIentry e("k", t.c_str()); CHECK(t == e.GetString() && e.GetInt() == i && e.GetDouble() == d, "%s is read as %lld and %.17g", t.c_str(), (long long)e.GetInt(), e.GetDouble()); CHECK((int64_t)e == i && (uint64_t)e == (uint64_t)i && (int)e == (int)i && (uint32_t)e == (uint32_t)i && (short)e == (short)i && (uint16_t)e == (uint16_t)i && (uint8_t)e == (uint8_t)i && (char)e == (char)i && (bool)e == (i != 0) && (double)e == d && (float)e == (float)d && t == (const char*)e, "conversion of %s", t.c_str());
  INIentry c(e), x; x = e; { INIentry y("k", t.c_str(), i, d); CHECK(y == e && t == y.GetString() && y.GetInt() == i && y.GetDouble() == d && S(y.GetKey()) == "k", "entry built from its parts"); }  CHECK(c == e && x == e && !(c != e), "copies differ"); int64_t j = doc::integer(s); x = j; CHECK(x.GetInt() == j && S(x.GetString()) == std::to_string(j) && x.GetDouble() == (double)j && S(x.GetKey()) == "k", "assigned integer"); x = t.c_str(); CHECK(x == e, "assigned text"); double q = (double)(int64_t)s.draw(2000000) / 64 - 9000; x = q; CHECK(x.GetDouble() == q && x.GetInt() == (int64_t)q && fabs(strtod(x.GetString(), 0) - q) < 1e-6, "assigned %g", q);
}
PROP(damaged, 1, pbt::LEAKCHECK, "text of >=8 bytes")
{
  Ini m; S t = s.chance(3, 4) ? doc::mutate(s, lines(s, m, 20, 0)) : s.bytes(80, 0); s.nontrivial(t.size() >= 8); s.note("%s", show(t, 300).c_str()); File f(t); INIstorage ini(f.p.c_str()); int n = (int)s.draw(6); while(n--) { S a = name(s), k = name(s); if(!m.empty() && s.boolean()) { auto& g = m[s.draw(m.size())]; a = g.name; if(!g.s[0].e.empty()) k = g.s[0].e[0].key; } size_t i = s.draw(2), j = s.draw(2); switch(s.draw(5)) { case 0: ini.AddSection(a.c_str()); break; case 1: ini.RemoveSection(a.c_str(), i); break; case 2: ini.EditEntry(a.c_str(), k.c_str(), "v", (size_t)~0, i); break; case 3: ini.EditEntry(a.c_str(), k.c_str(), "w", j, i); break; case 4: ini.EditEntry(a.c_str(), k.c_str(), 0, j, i); break; } } INIstorage c(ini); ini.EndINIEdit(); size_t x = 0, y = 0; for(auto& p : ini) for(auto& e : p) x += e.IsValid() + strlen(e.GetString()); for(auto& p : c) for(auto& e : p) y += e.IsValid() + strlen(e.GetString()); CHECK(x == y, "a copy differs from its source");
}
