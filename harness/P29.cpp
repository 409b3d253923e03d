// Variants, owning and counted pointers, delegates and singletons keep exactly the value, owner, target or instance they were last given.
// LIBS: bss_util.cpp bss_util_c.c ConvertUTF.c UBJSON.cpp
// ASSUME: get and convert are called for the type held; an OwnerPtr is not assigned from another pointer that merely observes the object it owns; counted objects form no cycles; a variant is parsed from what was written for it, its tag before its value
#include "tracked.h"
#include "bss-util/SmartPtr.h"
#include "bss-util/RefCounter.h"
#include "bss-util/Delegate.h"
#include "bss-util/Singleton.h"
#include "bss-util/Serializer.h"
#include "bss-util/JSON.h"
#include "bss-util/UBJSON.h"
#include "bss-util/Str.h"
#include "bss-util/Variant.h"
#include <sstream>
#include <set>
#include <map>
#include <functional>
using namespace bss;
struct alignas(16) Wide { double d[2]; Wide(int v = 0) { d[0] = v; d[1] = -v; } bool ok(int v) const { return d[0] == v && d[1] == -v; } };
typedef Variant<int, trk::Safe, std::string, Wide, trk::Reloc, double> V;
struct MV { int tag = -1; int v = 0; bool moved = false; };
static std::string lng(int v) { return "a string long enough to live on the heap " + std::to_string(v); }
static void same(const V& a, const MV& m, const char* what)
{
  CHECK(a.tag() == m.tag, "%s: tag %d instead of %d", what, a.tag(), m.tag); CHECK(a.is<int>() == (m.tag == 0) && a.is<trk::Safe>() == (m.tag == 1) && a.is<std::string>() == (m.tag == 2) && a.is<Wide>() == (m.tag == 3) && a.is<trk::Reloc>() == (m.tag == 4) && a.is<double>() == (m.tag == 5), "%s: is()", what); if(m.moved) return;
  switch(m.tag) { case 0: CHECK(a.get<int>() == m.v, "%s: int %d instead of %d", what, a.get<int>(), m.v); break; case 1: CHECK(a.get<trk::Safe>().get() == m.v, "%s: object %d instead of %d", what, a.get<trk::Safe>().get(), m.v); break; case 2: CHECK(a.get<std::string>() == lng(m.v), "%s: string %s", what, a.get<std::string>().c_str()); break; case 3: CHECK(((size_t)&a.get<Wide>() & 15) == 0, "%s: value at a misaligned address", what); CHECK(a.get<Wide>().ok(m.v), "%s: aligned value", what); break; case 4: CHECK(a.get<trk::Reloc>().get() == m.v, "%s: object %d instead of %d", what, a.get<trk::Reloc>().get(), m.v); break; case 5: CHECK(((size_t)&a.get<double>() & 7) == 0, "%s: double at a misaligned address", what); CHECK(a.get<double>() == m.v * .5, "%s: double", what); break; }
}
static V make(int t, int v, bool rv) { switch(t) { case 0: return rv ? V(int(v)) : V(v); case 1: { trk::Safe x(v); if(rv) return V(std::move(x)); return V(x); } case 2: { std::string x = lng(v); if(rv) return V(std::move(x)); const std::string& c = x; return V(c); } case 3: { Wide w(v); return V(w); } case 4: { const trk::Reloc x(v); return V(x); } case 5: return V(v * .5); } return V(); }
static void put(V& a, int t, int v, bool rv) { switch(t) { case 0: a = v; break; case 1: { trk::Safe x(v); if(rv) a = std::move(x); else { a = x; CHECK(x.get() == v, "assigning changed its source"); } break; } case 2: { std::string x = lng(v); if(rv) a = std::move(x); else { a = x; CHECK(x == lng(v), "assigning changed its source"); } break; } case 3: { const Wide w(v); a = w; break; } case 4: { trk::Reloc x(v); if(rv) a = std::move(x); else a = (const trk::Reloc&)x; break; } case 5: { double d = v * .5; a = d; break; } } }
PROP(variants, 4, pbt::LEAKCHECK, "a type change and a copy or move between variants")
{
  const int N = 3; long base = trk::live; { std::vector<std::unique_ptr<V>> a; MV m[N]; for(int i = 0; i < N; ++i) a.emplace_back(new V()); int chg = 0, cp = 0, val = 0;
  while(s.more(20)) { int i = (int)s.draw(N), j = (int)s.draw(N), t = (int)s.draw(6), v = ++val; bool rv = s.boolean(); switch(s.pick({ 3, 2, 3, 3, 2, 2, 2, 1 })) {
    case 0: s.note("v%d = type %d value %d%s", i, t, v, rv ? " (rvalue)" : ""); chg += m[i].tag != t; put(*a[i], t, v, rv); m[i] = { t, v, false }; break;
    case 1: s.note("v%d reconstructed as type %d value %d", i, t, v); a[i].reset(new V(make(t, v, rv))); m[i] = { t, v, false }; break;
    case 2: s.note("v%d = v%d", i, j); cp += i != j; *a[i] = *a[j]; if(i != j) m[i] = m[j]; break;
    case 3: if(i == j) break; s.note("v%d = move(v%d)", i, j); ++cp; chg += m[i].tag != m[j].tag; *a[i] = std::move(*a[j]); m[i] = m[j]; m[j].moved = m[j].tag == 1 || m[j].tag == 2 || m[j].tag == 4; break;
    case 4: if(i == j) break; s.note("v%d reconstructed from v%d", i, j); ++cp; if(rv) { a[i].reset(new V(std::move(*a[j]))); m[i] = m[j]; m[j].moved = m[j].tag == 1 || m[j].tag == 2 || m[j].tag == 4; } else { const V& c = *a[j]; a[i].reset(s.boolean() ? new V(c) : new V(*a[j])); m[i] = m[j]; } break;
    case 5: s.note("v%d typeset %d", i, t); chg++; switch(t) { case 0: a[i]->typeset<int>(); a[i]->get<int>() = v; break; case 1: a[i]->typeset<trk::Safe>(); CHECK(a[i]->get<trk::Safe>().get() == 0, "typeset value"); a[i]->get<trk::Safe>() = trk::Safe(v); break; case 2: a[i]->typeset<std::string>(); CHECK(a[i]->get<std::string>().empty(), "typeset value"); a[i]->get<std::string>() = lng(v); break; case 3: a[i]->typeset<Wide>(); a[i]->get<Wide>() = Wide(v); break; case 4: a[i]->typeset<trk::Reloc>(); a[i]->get<trk::Reloc>() = trk::Reloc(v); break; case 5: a[i]->typeset<double>(); a[i]->get<double>() = v * .5; break; } m[i] = { t, v, false }; break;
    case 6: { V b[2]; b[1] = *a[i]; b[0] = std::move(b[1]); same(b[0], m[i], "array element"); V c(b[0]); b[1] = c; same(b[1], m[i], "array element"); break; }
    case 7: { CHECK(V::contains<int>() && V::contains<double>() && !V::contains<float>() && V::type<Wide>() == 3 && V::type<char>() == -1 && V::Type<trk::Reloc>::value == 4, "type queries"); Variant<int, short, double, char> q; switch(t % 4) { case 0: q = (int)v; break; case 1: q = (short)v; break; case 2: q = (double)v; break; case 3: q = (char)(v & 63); break; } CHECK(q.convert<float>() == (float)(t % 4 == 3 ? (v & 63) : v) && q.convert<long long>() == (t % 4 == 3 ? (v & 63) : v), "convert"); Variant<trk::Safe, std::shared_ptr<int>> z; std::shared_ptr<int> sp(new int(v)); z = sp; CHECK(sp.use_count() == 2, "copies held"); z = trk::Safe(v); CHECK(sp.use_count() == 1, "the replaced value was not destroyed"); break; } }
    for(int k = 0; k < N; ++k) { char w[8]; snprintf(w, 8, "v%d", k); same(*a[k], m[k], w); } long live = 0; for(auto& k : m) live += k.tag == 1 || k.tag == 4; CHECK(trk::live - base == live, "%ld objects alive instead of %ld", trk::live - base, live); } s.nontrivial(chg && cp); } CHECK(trk::live == base, "objects left alive");
}
struct Hold { int64_t x = 0; Variant<int64_t, Str, double, bool> v, w; Str tail; template<typename E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<Hold>(GenPair("x", x), GenPair("v", v), GenPair("w", w), GenPair("tail", tail)); } };
static void fill(pbt::Src& s, Variant<int64_t, Str, double, bool>& v, std::string& d) { switch(s.draw(4)) { case 0: { int64_t k = s.edgy(-1000000000ll, 1000000000ll); v = k; d += " " + std::to_string(k); break; } case 1: { Str t(s.bytes(40, 1).c_str()); v = t; d += " \"" + std::string(t.c_str()) + "\""; break; } case 2: { double k = s.range(-4000, 4000) / 8.; v = k; d += " " + std::to_string(k); break; } case 3: { bool b = s.boolean(); v = b; d += b ? " true" : " false"; break; } } }
static bool eq(const Variant<int64_t, Str, double, bool>& a, const Variant<int64_t, Str, double, bool>& b) { if(a.tag() != b.tag()) return false; switch(a.tag()) { case 0: return a.get<int64_t>() == b.get<int64_t>(); case 1: return a.get<Str>() == b.get<Str>(); case 2: return a.get<double>() == b.get<double>(); case 3: return a.get<bool>() == b.get<bool>(); } return true; }
template<class E> static void io(pbt::Src& s, const char* name)
{
  Hold a, b; std::string d; fill(s, a.v, d); fill(s, a.w, d); a.x = s.range(-9, 9); a.tail = s.bytes(12, 1).c_str(); d += " read over"; bool pre = s.boolean(); if(pre) { fill(s, b.v, d); fill(s, b.w, d); b.tail = "old"; } s.note("%s:%s", name, d.c_str()); s.nontrivial(pre && (a.v.tag() != b.v.tag() || a.w.tag() != b.w.tag())); std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); { Serializer<E> e; e.Serialize(a, ss, 0); } { Serializer<E> e; e.Parse(b, ss, 0); } CHECK(b.x == a.x && b.tail == a.tail, "fields around a variant"); CHECK(eq(a.v, b.v) && eq(a.w, b.w), "a variant of type %d/%d was read back as %d/%d or with another value", a.v.tag(), a.w.tag(), b.v.tag(), b.w.tag());
}
PROP(variantio, 1, pbt::LEAKCHECK, "read into a variant that holds another type") { if(s.boolean()) io<JSONEngine>(s, "JSON"); else io<UBJSONEngine>(s, "UBJSON"); }
// ---- counted pointers ----
struct Node; static std::set<int> alive; struct Node : RefCounter { int id; ref_ptr<Node> kid[2]; Node(int i) : id(i) { alive.insert(i); } Node(const Node& c, int i) : RefCounter(c), id(i), kid{ c.kid[0], c.kid[1] } { alive.insert(i); } void take(const Node& c) { RefCounter::operator=(c); } int refs() { Grab(); int r = Grab() - 2; Grab(-2); return r; } protected: ~Node() { CHECK(alive.erase(id) == 1, "object %d destroyed twice", id); } };
PROP(refpointers, 4, pbt::LEAKCHECK, "an object shared by two pointers and an assignment that drops the last reference")
{
  alive.clear(); std::map<int, Node*> addr; struct MN { int kid[2] = { -1, -1 }; }; std::map<int, MN> mn; const int N = 4; int ms[N]; int ext[64] = { 0 }; bool shared = false, dropped = false; { std::unique_ptr<ref_ptr<Node>> p[N]; for(int i = 0; i < N; ++i) { p[i].reset(new ref_ptr<Node>()); ms[i] = -1; } int next = 0; std::vector<int> grabbed;
  auto settle = [&] { std::map<int, int> c; bool go = true; while(go) { c.clear(); for(auto& k : mn) c[k.first] = ext[k.first]; for(int k : ms) if(k >= 0) ++c[k]; for(auto& k : mn) for(int q : k.second.kid) if(q >= 0) ++c[q]; go = false; for(auto it = mn.begin(); it != mn.end();) if(!c[it->first]) { it = mn.erase(it); go = true; dropped = true; } else ++it; } std::set<int> e; for(auto& k : mn) e.insert(k.first); CHECK(e == alive, "%zu objects alive instead of %zu", alive.size(), e.size()); for(auto& k : mn) { int r = addr[k.first]->refs(); CHECK(r == c[k.first], "object %d counts %d references instead of %d", k.first, r, c[k.first]); if(r > 1) shared = true; } for(int i = 0; i < N; ++i) { const ref_ptr<Node>& q = *p[i]; CHECK(!q == (ms[i] < 0) && (q == (ms[i] < 0 ? 0 : addr[ms[i]])), "pointer %d points elsewhere", i); if(ms[i] >= 0) CHECK(q->id == ms[i] && (*q).id == ms[i] && ((const Node*)q)->id == ms[i], "pointer %d", i); } };
  while(s.more(25)) { int i = (int)s.draw(N), j = (int)s.draw(N), k = (int)s.draw(2); ref_ptr<Node>&a = *p[i], &b = *p[j]; switch(s.pick({ 4, 2, 2, 1, 2, 2, 3, 3, 1, 1, 2 })) {
    case 10: if(next >= 60 || ms[j] < 0 || ms[i] == ms[j]) break; if(s.boolean() && ms[i] >= 0) { s.note("counter of object %d = that of %d", ms[i], ms[j]); a->take(*b); break; } s.note("p%d = new %d, a copy of %d", i, next, ms[j]); { for(int q : mn[ms[j]].kid) if(q >= 0) goto nocopy; Node* n = new Node(*b, next); addr[next] = n; mn[next] = mn[ms[j]]; ms[i] = next++; a = n; } nocopy: break; // only childless objects: children stay newer than their parent
    case 0: if(next >= 60) break; s.note("p%d = new %d", i, next); { Node* n = new Node(next); addr[next] = n; mn[next]; ms[i] = next++; if(s.boolean()) a = n; else { p[i].reset(new ref_ptr<Node>(n)); } } break;
    case 1: s.note("p%d = p%d", i, j); a = b; ms[i] = ms[j]; break;
    case 2: s.note("p%d = move(p%d)", i, j); a = std::move(b); if(i != j) { ms[i] = ms[j]; ms[j] = -1; } else ms[i] = a == 0 ? -1 : ms[i]; break;
    case 3: s.note("p%d = null", i); a = (Node*)0; ms[i] = -1; break;
    case 4: s.note("p%d = raw p%d", i, j); a = (Node*)b; ms[i] = ms[j]; break;
    case 5: if(i == j) break; s.note("p%d rebuilt from p%d", i, j); if(s.boolean()) { p[i].reset(new ref_ptr<Node>(b)); ms[i] = ms[j]; } else { p[i].reset(new ref_ptr<Node>(std::move(b))); ms[i] = ms[j]; ms[j] = -1; } break;
    case 6: if(ms[i] < 0 || (ms[j] >= 0 && ms[j] <= ms[i])) break; s.note("p%d.kid%d = p%d", i, k, j); a->kid[k] = b; mn[ms[i]].kid[k] = ms[j]; break; // children are newer than their parent: no cycles
    case 7: if(ms[i] < 0) break; { int q = mn[ms[i]].kid[k]; if(s.boolean()) { s.note("p%d = p%d.kid%d", i, i, k); a = a->kid[k]; } else { s.note("p%d = move(p%d.kid%d)", i, i, k); mn[ms[i]].kid[k] = -1; a = std::move(a->kid[k]); } ms[i] = q; } break;
    case 8: if(ms[i] < 0) break; s.note("grab %d", ms[i]); ((Node*)a)->Grab(); ++ext[ms[i]]; grabbed.push_back(ms[i]); break;
    case 9: if(grabbed.empty()) break; { int q = grabbed.back(); grabbed.pop_back(); s.note("drop %d", q); int tot = addr[q]->refs(); --ext[q]; CHECK(addr[q]->Drop() == tot - 1, "Drop returned the wrong count"); } break; }
    settle(); } while(!grabbed.empty()) { int q = grabbed.back(); grabbed.pop_back(); --ext[q]; addr[q]->Drop(); settle(); } s.nontrivial(shared && dropped); } CHECK(alive.empty(), "%zu objects never destroyed", alive.size());
}
static std::map<void*, int> dels; static long heapn; struct Own { int id; static std::set<int> live; Own(int i) : id(i) { live.insert(i); } ~Own() { CHECK(live.erase(id) == 1, "object %d deleted twice", id); } }; std::set<int> Own::live;
struct CountDel { void operator()(Own* p) const { ++dels[p]; delete p; } };
template<class P> static void owners(pbt::Src& s)
{
  Own::live.clear(); dels.clear(); Own stack1(1000), stack2(1001); const int N = 4; struct M { Own* p = 0; int id = -1; bool own = false; } m[N]; int next = 0; bool mv = false, cp = false; { std::unique_ptr<P> p[N]; for(auto& q : p) q.reset(new P()); auto gone = [&](int i) { if(m[i].own) for(int k = 0; k < N; ++k) if(k != i && m[k].p == m[i].p) m[k].id = -2; };
  while(s.more(18)) { int i = (int)s.draw(N), j = (int)s.draw(N); P &a = *p[i], &b = *p[j]; switch(s.pick({ 4, 2, 3, 2, 2, 1, 1 })) {
    case 0: { s.note("p%d = new %d", i, next); Own* o = new Own(next); gone(i); if(s.boolean()) a = o; else p[i].reset(new P(o)); m[i] = { o, next++, true }; break; }
    case 1: if(i == j) { s.note("p%d = itself", i); a = b; break; } if(m[j].p == m[i].p && m[i].own) break; s.note("p%d = p%d", i, j); gone(i); a = b; m[i] = { m[j].p, m[j].id, false }; cp = true; break;
    case 2: if(i == j) { s.note("p%d = move(itself)", i); a = std::move(b); break; } if(m[j].p == m[i].p && m[i].own) break; s.note("p%d = move(p%d)", i, j); gone(i); a = std::move(b); m[i] = m[j]; m[j].own = false; mv = true; break;
    case 3: if(i == j || (m[j].p == m[i].p && m[i].own)) break; s.note("p%d rebuilt from p%d", i, j); gone(i); if(s.boolean()) { p[i].reset(new P(b)); m[i] = { m[j].p, m[j].id, false }; cp = true; } else { p[i].reset(new P(std::move(b))); m[i] = m[j]; m[j].own = false; mv = true; } break;
    case 4: { Own& o = s.boolean() ? stack1 : stack2; s.note("p%d = reference to a local", i); gone(i); if(s.boolean()) a = o; else p[i].reset(new P(o)); m[i] = { &o, o.id, false }; break; }
    case 5: s.note("p%d = empty", i); gone(i); p[i].reset(new P()); m[i] = M(); break;
    case 6: if(i != j && m[i].id >= 0 && m[j].id >= 0) CHECK((a == b) == (m[i].p == m[j].p) && (a != b) == (m[i].p != m[j].p), "comparison"); break; }
    size_t want = 2; for(auto& k : m) want += k.own; CHECK(Own::live.size() == want, "%zu objects alive instead of %zu", Own::live.size(), want); for(int k = 0; k < N; ++k) if(m[k].id != -2) { P& q = *p[k]; const P& cq = q; CHECK((q == (const Own*)m[k].p) && !(q != (const Own*)m[k].p) && !q == (m[k].p == 0) && (const Own*)cq == m[k].p, "pointer %d points elsewhere", k); if(m[k].p) CHECK(q->id == m[k].id && (*q).id == m[k].id && cq->id == m[k].id, "object of pointer %d", k); } }
  s.nontrivial(mv && cp); } CHECK(Own::live.size() == 2, "%zu objects never deleted", Own::live.size() - 2);
}
PROP(ownerpointers, 3, pbt::LEAKCHECK, "a move and a copy between pointers") { if(s.boolean()) owners<OwnerPtr<Own>>(s); else owners<OwnerPtr<Own, CountDel>>(s); }
// ---- delegates ----
static std::vector<std::string> calls; static void log(const char* f, const void* o, int a, const std::string& b) { char t[160]; snprintf(t, 160, "%s %p %d %s", f, o, a, b.c_str()); calls.push_back(t); }
struct Base { virtual ~Base() {} virtual int virt(int a, std::string b) { log("base", this, a, b); return a; } }; struct Tgt : Base { int k; int m(int a, std::string b) { log("m", this, a, b); return a + k; } int c(int a, std::string b) const { log("c", this, a, b); return a - k; } int virt(int a, std::string b) override { log("virt", this, a, b); return a * k; } };
static int sf(int a, std::string b) { log("sf", 0, a, b); return -a; } static int cf(Tgt* t, int a, std::string b) { log("cf", t, a, b); return a ^ t->k; } static int ccf(const Tgt* t, int a, std::string b) { log("ccf", t, a, b); return a | t->k; } static int raw(void* t, int a, std::string b) { log("raw", t, a, b); return a + 77; }
static void refarg(int& a, const std::string& b) { ++a; log("ref", 0, a, b); }
static void defd(int a, std::string b) { log("defer", 0, a, b); }
PROP(delegates, 2, 0, "at least three calls through delegates")
{
  typedef Delegate<int, int, std::string> Dg; Tgt t[2]; t[0].k = (int)s.range(-9, 9); t[1].k = (int)s.range(-9, 9); int extra = (int)s.range(-5, 5); std::function<int(int, std::string)> fn = [&extra](int a, std::string b) { log("fn", &extra, a, b); return a + extra; }; Dg d[3]; struct E { int kind = -1, t = 0; } e[3]; int n = 0; calls.clear(); CHECK(Dg().IsEmpty(), "a default delegate is not empty");
  while(s.more(14)) { int i = (int)s.draw(3), j = (int)s.draw(3), q = (int)s.draw(2), kd = (int)s.draw(8); if(s.chance(2, 5)) { switch(kd) { case 0: d[i] = Dg::From<Tgt, &Tgt::m>(&t[q]); break; case 1: d[i] = Dg::From<Tgt, &Tgt::c>((const Tgt*)&t[q]); break; case 2: d[i] = Dg::From<Base, &Base::virt>(&t[q]); break; case 3: d[i] = Dg::FromC<&sf>(); break; case 4: d[i] = Dg::FromC<Tgt, &cf>(&t[q]); break; case 5: d[i] = Dg::FromC<Tgt, &ccf>((const Tgt*)&t[q]); break; case 6: d[i] = Dg(fn); break; case 7: d[i] = Dg(&t[q], &raw); break; } e[i] = { kd, q }; s.note("d%d = kind %d target %d", i, kd, q); if(kd != 3) CHECK(!d[i].IsEmpty(), "a bound delegate is empty"); }
    else if(s.chance(1, 3)) { s.note("d%d = d%d", i, j); if(s.boolean()) d[i] = d[j]; else { Dg c(d[j]); d[i] = c; } e[i] = e[j]; }
    else if(e[i].kind >= 0) { int a = (int)s.range(-50, 50); std::string b = s.bytes(12, 1); s.note("call d%d(%d)", i, a); char w[160]; Tgt& z = t[e[i].t]; int r = 0; switch(e[i].kind) { case 0: snprintf(w, 160, "m %p %d %s", (void*)&z, a, b.c_str()); r = a + z.k; break; case 1: snprintf(w, 160, "c %p %d %s", (void*)&z, a, b.c_str()); r = a - z.k; break; case 2: snprintf(w, 160, "virt %p %d %s", (void*)&z, a, b.c_str()); r = a * z.k; break; case 3: snprintf(w, 160, "sf %p %d %s", (void*)0, a, b.c_str()); r = -a; break; case 4: snprintf(w, 160, "cf %p %d %s", (void*)&z, a, b.c_str()); r = a ^ z.k; break; case 5: snprintf(w, 160, "ccf %p %d %s", (void*)&z, a, b.c_str()); r = a | z.k; break; case 6: snprintf(w, 160, "fn %p %d %s", (void*)&extra, a, b.c_str()); r = a + extra; break; case 7: snprintf(w, 160, "raw %p %d %s", (void*)&z, a, b.c_str()); r = a + 77; break; }
      size_t before = calls.size(); int g; switch(s.draw(3)) { case 0: { StoreDelegate<int, int, std::string> st(d[i], int(a), std::string(b)); CHECK(calls.size() == before, "storing a call made it"); g = st.Call(); int g2 = st(); CHECK(g == g2 && calls.size() == before + 2 && calls.back() == w, "stored delegate called twice"); calls.pop_back(); break; } case 1: if(e[i].kind == 3) { StoreFunction<int, int, std::string> st(&sf, int(a), std::string(b)); g = st(); break; } default: g = d[i](a, b); } CHECK(calls.size() == before + 1 && calls.back() == w, "call recorded as \"%s\" instead of \"%s\"", calls.empty() ? "" : calls.back().c_str(), w); CHECK(g == r, "call returned %d instead of %d", g, r); ++n; } }
  { int x = 5; Delegate<void, int&, const std::string&> rd = Delegate<void, int&, const std::string&>::FromC<&refarg>(); rd(x, "ref"); CHECK(x == 6, "reference argument was copied"); } { calls.clear(); { auto a = defer(&defd, 1, std::string("a")); { auto b = defer(Delegate<void, int, std::string>::FromC<&defd>(), 2, std::string("b")); CHECK(calls.empty(), "deferred call made early"); } CHECK(calls.size() == 1 && calls[0].find(" 2 b") != std::string::npos, "deferred delegate"); } CHECK(calls.size() == 2 && calls[1].find(" 1 a") != std::string::npos, "deferred function"); } s.nontrivial(n >= 3);
}
struct Sing : Singleton<Sing> { int id; Sing(int i) : id(i) {} Sing(Sing&& m) : Singleton<Sing>(std::move(m)), id(m.id) {} Sing& operator=(Sing&& m) { Singleton<Sing>::operator=(std::move(m)); id = m.id; return *this; } static Sing* Inst() { return _instance; } }; template<> Sing* Singleton<Sing>::_instance = 0;
PROP(singletons, 1, 0, "a move of the current instance")
{
  std::unique_ptr<Sing> o[3]; int cur = -1, n = 0; bool mv = false; while(s.more(12)) { int i = (int)s.draw(3), j = (int)s.draw(3); switch(s.draw(4)) { case 0: s.note("o%d created", i); if(o[i]) { o[i].reset(); if(cur == i) cur = -1; } o[i].reset(new Sing(++n)); cur = i; break; case 1: s.note("o%d destroyed", i); o[i].reset(); if(cur == i) cur = -1; break; case 2: if(i == j || !o[j]) break; s.note("o%d built from o%d", i, j); { Sing* x = new Sing(std::move(*o[j])); bool w = cur == j; if(cur == i) cur = -1; o[i].reset(); o[i].reset(x); if(w) { cur = i; mv = true; } } break; case 3: if(i == j || !o[i] || !o[j]) break; s.note("o%d = move(o%d)", i, j); *o[i] = std::move(*o[j]); if(cur == j) { cur = i; mv = true; } break; } CHECK(Sing::Inst() == (cur < 0 ? 0 : o[cur].get()), "the instance is not object %d", cur); } s.nontrivial(mv); for(auto& k : o) k.reset(); CHECK(!Sing::Inst(), "an instance remains after all objects are gone");
}
