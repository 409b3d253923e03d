// XML: element trees follow a tree model through every edit, survive being written and read, and any text of the supported subset is read as its tree.
// LIBS: XML.cpp
// ASSUME: names are XML names; strings contain no NUL; text without DOCTYPE, CDATA, processing instructions, single-quoted or raw-angle-bracket attribute values; values of white space only are not preserved by writing
#include "tracked.h"
#include "rec.h"
#include "bss-util/XML.h"
using namespace bss;
using namespace doc;
struct N { std::string name, text; std::vector<std::pair<std::string, std::string>> at; std::vector<N> ch; };
static bool blank(const std::string& s) { for(unsigned char c : s) if(c > 32) return false; return true; }
static std::string name(pbt::Src& s) { static const char* t[] = { "a", "b", "c", "room", "ns:x", "a-b", "x.y", "_u", "A", "bb" }; if(s.chance(3, 4)) return t[s.draw(10)]; std::string r(1, "abcxyzT_"[s.draw(8)]); while(s.more(3)) r += "abz019_-.:"[s.draw(10)]; return r; }
static std::string text(pbt::Src& s) { switch(s.draw(4)) { case 0: return ""; case 1: return std::to_string(integer(s)); case 2: { char b[40]; snprintf(b, 40, "%.17g", real(s)); return b; } default: return str(s); } }
static N ngen(pbt::Src& s, int depth, int& budget) { N n; --budget; n.name = name(s); n.text = text(s); while(s.more(2) && n.at.size() < 6) { std::string k = name(s); bool dup = false; for(auto& a : n.at) dup |= a.first == k; std::string v = text(s); if(!dup) n.at.emplace_back(k, v); } if(depth > 0) while(s.more(2) && budget > 0) n.ch.push_back(ngen(s, depth - 1, budget)); return n; }
static size_t count(const N& n) { size_t c = 1; for(auto& x : n.ch) c += count(x); return c; }
static std::string rtrim(std::string s) { while(!s.empty() && (unsigned char)s.back() <= 32) s.pop_back(); return s; }
// mode 0: exact, 1: after writing (blank texts are dropped), 2: after pretty writing (white space may follow the text of an element with children)
static std::string diff(const N& m, const XMLNode& x, int mode, bool file = false)
{
  std::string at = "<" + m.name + ">: ", got = x.GetValue().String; if(!file || m.at.size()) if(m.name != x.GetName()) return at + "name is " + x.GetName();
  if(!file) { std::string want = m.text; if(mode && blank(want)) want = ""; if(mode == 2 && !m.ch.empty()) { if(blank(want) ? !blank(got) : rtrim(got) != rtrim(want)) return at + "text is " + show(got) + " expected " + show(want); } else if(got != want) return at + "text is " + show(got) + " expected " + show(want); }
  if(x.GetAttributes() != m.at.size()) return at + std::to_string(x.GetAttributes()) + " attributes"; for(size_t i = 0; i < m.at.size(); ++i) { const XMLValue* v = x.GetAttribute(i); if(v->Name != m.at[i].first || v->String != m.at[i].second) return at + "attribute " + std::to_string(i) + " is " + show(v->Name) + "=" + show(v->String) + " expected " + show(m.at[i].first) + "=" + show(m.at[i].second); if(x.GetAttribute(m.at[i].first.c_str()) != v || m.at[i].second != x.GetAttributeString(m.at[i].first.c_str())) return at + "attribute lookup by name " + m.at[i].first; }
  if(x.GetAttribute("nosuch") || x.GetAttribute(m.at.size())) return at + "an attribute that does not exist was found";
  if(x.GetNodes() != m.ch.size()) return at + std::to_string(x.GetNodes()) + " children expected " + std::to_string(m.ch.size()); for(size_t i = 0; i < m.ch.size(); ++i) { std::string e = diff(m.ch[i], *x.GetNode(i), mode); if(!e.empty()) return e; const XMLNode* want = 0; for(size_t j = 0; j < m.ch.size(); ++j) if(m.ch[j].name == m.ch[i].name) want = x.GetNode(j); if(x.GetNode(m.ch[i].name.c_str()) != want) return at + "child lookup by name " + m.ch[i].name; }
  if(x.GetNode("nosuch") || x.GetNode(m.ch.size())) return at + "a child that does not exist was found"; size_t k = 0; for(auto& c : x) if(c.get() != x.GetNode(k++)) return at + "iteration"; if(k != m.ch.size()) return at + "iteration length";
  return "";
}
static void put(XMLNode* x, const N& n) { x->SetValue(n.text.c_str()); for(auto& a : n.at) x->AddAttribute(a.first.c_str())->String = a.second; for(auto& c : n.ch) put(x->AddNode(c.name.c_str()), c); }
static N fgen(pbt::Src& s, int b = 14) { N f; f.name = "xml"; while(s.more(2) && b > 0) f.ch.push_back(ngen(s, 3, b)); if(s.boolean()) f.at.emplace_back("version", "1.0"); return f; }
PROP(roundtrip, 2, pbt::LEAKCHECK, ">=3 elements")
{
  N m = fgen(s); s.nontrivial(count(m) >= 4); XMLFile f; for(auto& a : m.at) f.AddAttribute(a.first.c_str())->String = a.second; for(auto& c : m.ch) put(f.AddNode(c.name.c_str()), c); std::string e = diff(m, f, 0, true); CHECK(e.empty(), "built tree differs at %s", e.c_str());
  bool pretty = s.boolean(); std::ostringstream out; f.Write(out, pretty); std::string t = out.str(); s.note("%s", show(t).c_str()); std::istringstream in(t); XMLFile g(in); e = diff(m, g, pretty ? 2 : 1, true); CHECK(e.empty(), "tree read back differs at %s: %s", e.c_str(), show(t, 900).c_str());
  if(!pretty) { std::ostringstream o2; g.Write(o2, false); CHECK(o2.str() == t, "second generation text differs: %s / %s", show(t).c_str(), show(o2.str()).c_str()); }
}
static std::string ent(pbt::Src& s, const std::string& v, bool attr)
{
  std::string r; char b[16]; for(size_t i = 0; i < v.size();) { unsigned char c = v[i]; size_t n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; uint32_t u = n == 1 ? c : n == 2 ? (c & 31) << 6 | (v[i + 1] & 63) : n == 3 ? (c & 15) << 12 | (v[i + 1] & 63) << 6 | (v[i + 2] & 63) : (c & 7) << 18 | (v[i + 1] & 63) << 12 | (v[i + 2] & 63) << 6 | (v[i + 3] & 63);
    static const char* nm[] = { "&lt;", "&gt;", "&amp;", "&apos;", "&quot;" }; static const char ch[] = "<>&'\""; const char* p = c < 0x80 ? strchr(ch, c) : 0; bool must = u == '<' || u == '&' || (attr && (u == '"' || u == '>'));
    if(p && (must || s.boolean()) && !s.chance(1, 5)) r += nm[p - ch]; else if(must || s.chance(1, 10)) { snprintf(b, 16, s.boolean() ? "&#%u;" : s.boolean() ? "&#x%x;" : "&#x%X;", u); r += b; } else r.append(v, i, n); i += n; }
  return r;
}
static std::string sp(pbt::Src& s, bool need = false) { std::string r = need ? " " : ""; if(s.chance(1, 4)) r += " \t\n\r"[s.draw(4)]; return r; }
static std::string note(pbt::Src& s) { static const char* t[] = { "<!-- comment -->", "<!---->", "<!--<a x=\"1\">&lt;</b>-->", "<!-- - > -->" }; return s.chance(1, 6) ? t[s.draw(4)] : ""; }
static std::string xml(pbt::Src& s, const N& n)
{
  std::string r = "<" + n.name; for(auto& a : n.at) r += sp(s, true) + a.first + sp(s) + "=" + sp(s) + "\"" + ent(s, a.second, true) + "\""; r += sp(s);
  if(n.text.empty() && n.ch.empty() && s.boolean()) return r + (s.boolean() ? " />" : "/>"); r += ">"; size_t p = 0; auto cut = [&](bool last) { size_t q = last ? n.text.size() : p + s.draw(n.text.size() - p + 1); while(q < n.text.size() && (n.text[q] & 0xC0) == 0x80) ++q; r += ent(s, n.text.substr(p, q - p), false); p = q; };
  for(auto& c : n.ch) { cut(false); r += note(s) + xml(s, c) + note(s); } cut(true); r += note(s); return r + "</" + n.name + sp(s) + ">";
}
PROP(reading, 2, pbt::LEAKCHECK, ">=3 elements")
{
  N m = fgen(s); s.nontrivial(count(m) >= 4); std::string t = m.at.empty() ? "" : "<?xml version=\"1.0\"?>"; for(auto& c : m.ch) t += sp(s) + note(s) + xml(s, c) + note(s); t += sp(s); s.note("%s", show(t).c_str()); std::string e; if(s.boolean()) { std::istringstream in(t); XMLFile f(in); e = diff(m, f, 0, true); } else { XMLFile f(t.c_str()); e = diff(m, f, 0, true); } CHECK(e.empty(), "text read as a different tree: %s: %s", e.c_str(), show(t, 900).c_str());
  if(m.ch.size()) { std::string lead; while(s.more(1) && lead.size() < 100) lead += note(s) + sp(s); XMLNode n((lead + xml(s, m.ch[0])).c_str()); e = diff(m.ch[0], n, 0); CHECK(e.empty(), "single element read differently: %s", e.c_str()); }
}
PROP(edit, 2, pbt::LEAKCHECK, ">=6 edits, at least one removal and one copy or move")
{
  std::unique_ptr<XMLNode> x(new XMLNode()); x->SetName("root"); N m; m.name = "root"; int ops = 0, rem = 0, cp = 0;
  while(s.more() && ops < 60)
  {
    N* n = &m; XMLNode* p = x.get(); while(n->ch.size() && s.chance(1, 3)) { size_t i = s.draw(n->ch.size()); n = &n->ch[i]; p = p->GetNode(i); CHECK(p, "child %zu missing", i); } ++ops;
    switch(s.pick({ 6, 2, 4, 4, 4, 2, 2, 1, 1, 2 }))
    {
    case 0: { N c; c.name = name(s); XMLNode* k = p->AddNode(c.name.c_str()); CHECK(k && k == p->GetNode(n->ch.size()), "AddNode result"); n->ch.push_back(c); s.note("add node %s", c.name.c_str()); break; }
    case 1: { int b = 4; N c = ngen(s, 1, b); XMLNode k; k.SetName(c.name.c_str()); put(&k, c); p->AddNode(k); std::string e = diff(c, k, 0); CHECK(e.empty(), "adding a copy changed the original: %s", e.c_str()); n->ch.push_back(c); s.note("add copy %s", c.name.c_str()); ++cp; break; }
    case 2: if(n->ch.size()) { size_t i = s.draw(n->ch.size() + 1); s.note("remove node %zu of %zu", i, n->ch.size()); if(i == n->ch.size()) CHECK(!p->RemoveNode(i), "removed a node that does not exist"); else { CHECK(p->RemoveNode(i), "RemoveNode"); n->ch.erase(n->ch.begin() + i); ++rem; } } break;
    case 3: { std::string k = name(s); int i = (int)n->ch.size() - 1; while(i >= 0 && n->ch[i].name != k) --i; s.note("remove node by name %s", k.c_str()); CHECK(p->RemoveNode(k.c_str()) == (i >= 0), "RemoveNode by name"); if(i >= 0) { n->ch.erase(n->ch.begin() + i); ++rem; } break; }
    case 4: { std::string k = name(s), v = text(s); size_t i = 0; while(i < n->at.size() && n->at[i].first != k) ++i; XMLValue* r; if(s.boolean()) { XMLValue q; q.Name = k; q.String = v; q.Integer = (int64_t)s.draw(1000) - 500; q.Float = (double)q.Integer / 4; r = p->AddAttribute(q); CHECK(r && r->Integer == q.Integer && r->Float == q.Float, "the numbers of an added attribute"); } else { r = p->AddAttribute(k.c_str()); CHECK(r && r->String.empty(), "a new attribute is not empty"); r->String = v; } CHECK(r && r->Name == k && r->String == v, "AddAttribute"); if(i < n->at.size()) n->at[i].second = v; else n->at.emplace_back(k, v); s.note("attribute %s", k.c_str()); break; }
    case 5: { size_t i = s.draw(n->at.size() + 1); s.note("remove attribute %zu of %zu", i, n->at.size()); if(s.boolean() || i == n->at.size()) CHECK(p->RemoveAttribute(i) == (i < n->at.size()), "RemoveAttribute"); else CHECK(p->RemoveAttribute(n->at[i].first.c_str()), "RemoveAttribute by name"); CHECK(!p->RemoveAttribute("nosuch"), "removed an attribute that does not exist"); if(i < n->at.size()) { n->at.erase(n->at.begin() + i); ++rem; } break; }
    case 6: { switch(s.draw(3)) { case 0: { n->text = text(s); p->SetValue(n->text.c_str()); break; } case 1: { int64_t v = integer(s); p->SetValue(v); n->text = std::to_string(v); CHECK(p->GetValue().Integer == v, "SetValue integer"); break; } case 2: { double v = real(s); if(fabs(v) > 9e18) v = 2.5; p->SetValue(v); n->text = p->GetValue().String; CHECK(p->GetValue().Float == v && strtod(n->text.c_str(), 0) == v && p->GetValue().Integer == (int64_t)v, "SetValue %.17g gives the text %s", v, n->text.c_str()); break; } } break; }
    case 7: { if(s.chance(1, 4)) { s.note("root = %s", n == &m ? "itself" : "one of its descendants"); *x = *p; N c = *n; m = c; ++cp; break; } if(s.chance(1, 4) && n->ch.empty()) { s.note("add a copy of itself"); N c = *n; p->AddNode(*p); n->ch.push_back(c); break; } std::unique_ptr<XMLNode> y; s.note("copy"); if(s.boolean()) y.reset(new XMLNode(*x)); else { y.reset(new XMLNode()); N o; int b = 3; o = ngen(s, 1, b); put(y.get(), o); *y = *x; } std::string e = diff(m, *y, 0); CHECK(e.empty(), "copy differs: %s", e.c_str()); e = diff(m, *x, 0); CHECK(e.empty(), "copied-from tree differs: %s", e.c_str()); x = std::move(y); ++cp; break; }
    case 8: { std::unique_ptr<XMLNode> y; s.note("move"); if(s.boolean()) y.reset(new XMLNode(std::move(*x))); else { y.reset(new XMLNode()); N o; int b = 3; o = ngen(s, 1, b); put(y.get(), o); *y = std::move(*x); } x = std::move(y); ++cp; break; }
    case 9: if(s.chance(1, 4)) { p->Clear(); n->ch.clear(); n->at.clear(); s.note("clear"); } break;
    }
    std::string e = diff(m, *x, 0); CHECK(e.empty(), "after %d edits the tree differs at %s", ops, e.c_str());
  }
  s.nontrivial(ops >= 6 && rem && cp);
}
PROP(values, 1, pbt::LEAKCHECK, "numeric or boolean text")
{ // attribute values convert to the number their text denotes
  int64_t i = integer(s); double d = real(s); uint64_t u = s.bits64(); bool b = s.boolean(); char h[40], bin[80], dd[40]; snprintf(h, 40, "0x%llX", (unsigned long long)u); snprintf(dd, 40, "%.17g", d); s.nontrivial(true);
  std::string t = "<v i=\"" + std::to_string(i) + "\" u=\"" + std::to_string(u) + "\" h=\"" + h + "\" d=\"" + dd + "\" b=\"" + (b ? "true" : "false") + "\">" + std::to_string(i) + "</v>"; XMLFile f(t.c_str()); const XMLNode* n = f.GetNode((size_t)0); CHECK(n, "element missing: %s", t.c_str()); s.note("%s", t.c_str());
  CHECK((int64_t)*n->GetAttribute("i") == i && n->GetAttributeInt("i") == i && (uint64_t)*n->GetAttribute("u") == u && (uint64_t)*n->GetAttribute("h") == u && (double)*n->GetAttribute("d") == d && n->GetAttributeFloat("d") == d && (bool)*n->GetAttribute("b") == b && n->GetValue().Integer == i, "conversion of %s", t.c_str());
  for(const char* k : { "i", "d", "b" }) { const XMLValue& o = *n->GetAttribute(k); auto eq = [&](const XMLValue& v, const char* how) { CHECK(v.Name == o.Name && v.String == o.String && v.Integer == o.Integer && v.Float == o.Float, "the value %s is not kept by %s", o.String.c_str(), how); }; XMLValue c(o), e; eq(c, "a copy"); e = c; eq(e, "an assignment"); XMLValue w(std::move(c)); eq(w, "a move"); XMLValue q; q.Float = -1; q.Integer = -1; q = std::move(w); eq(q, "a move assignment"); }
  CHECK((int)*n->GetAttribute("i") == (int)i && (short)*n->GetAttribute("i") == (short)i && (uint8_t)*n->GetAttribute("i") == (uint8_t)i && (uint32_t)*n->GetAttribute("h") == (uint32_t)u, "narrow conversion of %s", t.c_str());
  { char* p = bin; *p++ = '0'; *p++ = 'b'; int top = 63; while(top > 0 && !(u >> top & 1)) --top; for(; top >= 0; --top) *p++ = '0' + (char)(u >> top & 1); *p = 0; std::string c[4] = { b ? "TRUE" : "False", bin, "", "-" + std::to_string(u >> 1) }; int k[2] = { (int)s.draw(4), (int)s.draw(4) }; int64_t want[4] = { b, (int64_t)u, 0, -(int64_t)(u >> 1) };
    XMLFile g(("<v x=\"" + c[k[0]] + "\">" + c[k[0]] + "</v>").c_str()); XMLNode* m = (XMLNode*)g.GetNode((size_t)0); CHECK(m && m->GetAttributeInt("x") == want[k[0]] && m->GetValue().Integer == want[k[0]], "\"%s\" is read as %lld and %lld", c[k[0]].c_str(), m ? (long long)m->GetAttributeInt("x") : 0, m ? (long long)m->GetValue().Integer : 0);
    m->SetValue(c[k[1]].c_str()); CHECK(m->GetValue().Integer == want[k[1]] && m->GetValue().String == c[k[1]], "\"%s\" set over \"%s\" has the value %lld", c[k[1]].c_str(), c[k[0]].c_str(), (long long)m->GetValue().Integer); }
}
struct XRec : rec::Rec
{
  template<typename Engine> void Serialize(Serializer<Engine>& s, const char*)
  {
    s.template EvaluateType<XRec>(GenPair("a", a), GenPair("u", u), GenPair("b", b), GenPair("c", c), GenPair("d", d), GenPair("sh", sh), GenPair("ui", ui), GenPair("e", e), GenPair("f", f), GenPair("str", str), GenPair("t", t), GenPair("col", col), GenPair("nums", nums), GenPair("vd", vd), GenPair("strs", strs), GenPair("arr", arr), GenPair("nested", nested), GenPair("fix", fix), GenPair("ia", ia), GenPair("hash", hash), GenPair("tup", tup), GenPair("bits", bits), GenPair("smap", smap), GenPair("raw", raw), GenPair("raw2", raw2), GenPair("i8", i8));
  }
};
PROP(typed, 2, pbt::LEAKCHECK, "record of more than 500 bytes")
{
  rec::Opt o; o.deep = false; o.key = [](pbt::Src& s) { return name(s); }; o.str = [](pbt::Src& s) { std::string t = str(s); return blank(t) ? std::string() : t; };
  XRec r; (rec::Rec&)r = rec::gen(s, o); for(auto& x : r.mat.v) for(auto& y : x) y = 0; Serializer<XMLEngine> e; e.engine.pretty = s.boolean(); std::stringstream ss; e.Serialize(r, ss, "rec"); std::string t = ss.str(); s.note("%s", show(t, 600).c_str()); s.nontrivial(t.size() > 500);
  XRec q; std::istringstream in(t); if(s.boolean()) e.Parse(q, in, "rec"); else { Serializer<XMLEngine> e2; e2.Parse(q, in, "rec"); } const char* f = rec::eq(r, q); CHECK(!f, "field %s changed in a round trip through %s", f, show(t, 900).c_str());
}
PROP(damaged, 1, pbt::LEAKCHECK, "text of >=8 bytes")
{
  std::string t; if(s.chance(4, 5)) { N m = fgen(s); for(auto& c : m.ch) t += xml(s, c); t = mutate(s, t); } else { int n = (int)s.draw(60); while(n--) t += "<></=\"&;!-? ab#x"[s.draw(16)]; } s.nontrivial(t.size() >= 8); s.note("%s", show(t).c_str());
  std::istringstream in(t); XMLFile f(in); std::ostringstream out; f.Write(out, s.boolean()); std::istringstream i2(out.str()); XMLFile g(i2); XMLFile c(f);
}
