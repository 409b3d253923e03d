// Directed graphs: structure, matrix conversion, breadth-first search, maximum flow and its reductions.
#include "tracked.h"
#include "bss-util/Graph.h"
#include <map>
#include <set>
#include <queue>
using namespace bss;
using namespace trk;

static bool isedge(const int* p) { return *p != 0; }
struct ME { size_t id; int from, to, data; };
template<class CT, class ALLOC> static void structure(pbt::Src& s)
{
  typedef Graph<int, int, CT, ALLOC> G; typedef Edge<int, CT> E; 
  std::unique_ptr<G> g(new G()); std::map<int, int> nodes; std::vector<std::pair<E*, ME>> edges; int stamp = 0, ops = 0; size_t pe = 0; bool moved = false, rmn = false, selfl = false;
  if(s.chance(1, 4)) { CT n = (CT)s.draw(8); std::vector<int> v; for(int i = 0; i < n; ++i) v.push_back((int)s.draw(100)); v.push_back(0); g.reset(new G(n, v.data())); CT k = g->Front(); for(int i = 0; i < n; ++i) { CHECK(k != (CT)-1, "constructed node missing"); nodes[k] = v[i]; g->GetNodes().Next(k); } }
  auto pickn = [&]() { auto it = nodes.begin(); std::advance(it, s.draw(nodes.size())); return it->first; };
  while(s.more())
  {
    switch(s.pick({ 6, 12, 5, 2, 1, 2 }))
    {
    case 0: { if(nodes.size() > 25) break; int v = ++stamp; CT i; if(s.boolean()) i = g->AddNode(&v); else { i = g->AddNode(); v = 0; } CHECK(!nodes.count(i), "AddNode returned a live index"); nodes[i] = v; break; }
    case 1: { if(nodes.empty() || edges.size() > 60) break; int a = pickn(), b = pickn(); selfl |= a == b; int v = ++stamp; E* e = g->AddEdge((CT)a, (CT)b, &v); CHECK(e->from == (CT)a && e->to == (CT)b && e->data == v, "AddEdge result"); edges.push_back({ e, { edges.size(), a, b, v } }); s.note("edge %d->%d", a, b); break; }
    case 2: { if(edges.empty()) break; size_t i = s.draw(edges.size()); g->RemoveEdge(edges[i].first); edges.erase(edges.begin() + i); break; }
    case 3: { if(nodes.empty()) break; int a = pickn(); g->RemoveNode((CT)a); nodes.erase(a); for(size_t i = edges.size(); i-- > 0;) if(edges[i].second.from == a || edges[i].second.to == a) edges.erase(edges.begin() + i); rmn = true; s.note("remove node %d", a); break; }
    case 4: { std::unique_ptr<G> n; if(s.boolean()) n.reset(new G(std::move(*g))); else { n.reset(new G()); CT a = n->AddNode(), b = n->AddNode(); int v = 5; n->AddEdge(a, b, &v); n->AddEdge(b, b, &v); *n = std::move(*g); } CHECK(g->NumEdges() == 0, "moved-from graph has edges"); g = std::move(n); moved = true; break; }
    case 5: // matrix round trip when there are no parallel edges
      { std::set<std::pair<int, int>> seen; bool multi = false; for(auto& e : edges) multi |= !seen.insert({ e.second.from, e.second.to }).second; if(multi || nodes.empty()) break;
        size_t n = nodes.size(); std::vector<int> m(n * n), v(n), w(n); CHECK((size_t)g->ToMatrix(nullptr, nullptr) == n, "ToMatrix size"); CHECK((size_t)g->ToMatrix(m.data(), v.data()) == n, "ToMatrix size");
        std::map<int, int> row; int r = 0; CT c = g->Front(); while(c != (CT)-1) { row[c] = r; CHECK(v[r] == nodes[c], "ToMatrix vertex %d is %d expected %d", r, v[r], nodes[c]); ++r; g->GetNodes().Next(c); }
        std::vector<int> em(n * n); for(auto& e : edges) em[row[e.second.from] * n + row[e.second.to]] = e.second.data; CHECK(m == em, "ToMatrix disagrees with the edges");
Graph<int, int, CT, ALLOC> h; h.template FromMatrix<isedge>((CT)n, m.data(), v.data()); CHECK((size_t)h.NumNodes() == n && (size_t)h.NumEdges() == edges.size(), "FromMatrix size"); std::vector<int> m2(n * n); h.ToMatrix(m2.data(), w.data()); CHECK(m2 == m && w == v, "matrix round trip");
        std::vector<char> cm(n * n); for(size_t i = 0; i < n * n; ++i) cm[i] = m[i] ? 1 : 0; Graph<void, void, CT, StandardAllocator<Edge<void, CT>>> q((CT)n, cm.data(), nullptr); CHECK((size_t)q.NumEdges() == edges.size(), "adjacency constructor"); std::vector<char> cm2(n * n); q.ToMatrix(cm2.data(), nullptr); CHECK(cm == cm2, "adjacency round trip"); break; }
    }
    ++ops; for(auto& nd : nodes) CHECK(g->GetNode((CT)nd.first) == &g->GetNodes()[(CT)nd.first], "GetNode(%d)", nd.first); CHECK(!g->GetNode((CT)g->Capacity()), "GetNode past the end"); pe = std::max(pe, edges.size());
    CHECK((size_t)g->NumNodes() == nodes.size() && (size_t)g->NumEdges() == edges.size(), "%zu nodes %zu edges expected %zu %zu", (size_t)g->NumNodes(), (size_t)g->NumEdges(), nodes.size(), edges.size());
    std::set<E*> out, in, want; for(auto& e : edges) want.insert(e.first); size_t cnt = 0;
    for(CT i = g->Front(); i != (CT)-1; g->GetNodes().Next(i))
    {
      ++cnt; CHECK(nodes.count(i), "iteration visits a dead node"); const auto& nd = (*g)[i]; CHECK(nd.data == nodes[i], "node %d data %d expected %d", (int)i, nd.data, nodes[i]); E* pv = 0;
      for(E* e = nd.to; e; e = e->next) { CHECK(want.count(e) && e->from == i && e->prev == pv && out.insert(e).second, "outgoing list of %d is broken", (int)i); pv = e; } pv = 0;
      for(E* e = nd.from; e; e = e->alt.next) { CHECK(want.count(e) && e->to == i && e->alt.prev == pv && in.insert(e).second, "incoming list of %d is broken", (int)i); pv = e; }
    }
    CHECK(cnt == nodes.size() && out == want && in == want, "edge lists do not contain exactly the live edges"); for(auto& e : edges) CHECK(e.first->data == e.second.data && e.first->from == (CT)e.second.from && e.first->to == (CT)e.second.to, "edge changed");
  }
  s.nontrivial(ops >= 5 && pe >= 3); if(moved) s.label("moved"); if(rmn) s.label("node removed"); if(selfl) s.label("self loop");
}
PROP(structure, 2, pbt::LEAKCHECK, "history of >=5 operations reaching >=3 edges")
{
  switch(s.draw(3)) { case 0: structure<uint16_t, StandardAllocator<Edge<int, uint16_t>>>(s); break; case 1: structure<uint8_t, StandardAllocator<Edge<int, uint8_t>>>(s); break; case 2: structure<size_t, StandardAllocator<Edge<int, size_t>>>(s); break; }
}

struct Net { int n; std::vector<std::array<int, 3>> e; };
static Net net(pbt::Src& s) { Net r; r.n = 2 + (int)s.draw(s.chance(1, 3) ? 12 : 6); int maxc = s.boolean() ? 5 : 1000; while(s.more(12)) r.e.push_back({ (int)s.draw(r.n), (int)s.draw(r.n), (int)s.draw(maxc) }); return r; }
// breadth-first search
static std::vector<int> visits; static int stopat; static bool visit(uint16_t n) { visits.push_back(n); return (int)n == stopat; }
PROP(bfs, 1, pbt::LEAKCHECK, "graph with >=3 reachable vertices")
{
  Net w = net(s); typedef Graph<void, void, uint16_t, StandardAllocator<Edge<void, uint16_t>>> G; G g; std::vector<int> id; for(int i = 0; i < w.n; ++i) id.push_back(g.AddNode());
  if(s.boolean()) { size_t k = s.draw(w.n); g.RemoveNode((uint16_t)id[k]); id[k] = g.AddNode(); int extra = g.AddNode(); g.RemoveNode((uint16_t)extra); }
  std::map<int, std::set<int>> adj; for(auto& e : w.e) { g.AddEdge((uint16_t)id[e[0]], (uint16_t)id[e[1]]); adj[id[e[0]]].insert(id[e[1]]); }
  int root = id[s.draw(w.n)]; std::map<int, int> dist; dist[root] = 0; std::queue<int> q; q.push(root); while(!q.empty()) { int u = q.front(); q.pop(); for(int v : adj[u]) if(!dist.count(v)) { dist[v] = dist[u] + 1; q.push(v); } }
  visits.clear(); stopat = s.chance(1, 3) ? id[s.draw(w.n)] : -1; std::unique_ptr<uint16_t[]> buf(new uint16_t[g.NumNodes()]); if(s.boolean()) BreadthFirstGraph<G, visit>(g, (uint16_t)root, buf.get()); else BreadthFirstGraph<G, visit>(g, (uint16_t)root);
  std::set<int> seen; int last = 0; CHECK(!visits.empty() && visits[0] == root, "root not visited first"); for(int v : visits) { CHECK(dist.count(v), "visited unreachable vertex %d", v); CHECK(seen.insert(v).second, "vertex %d visited twice", v); CHECK(dist[v] >= last, "vertex %d at distance %d visited after distance %d", v, dist[v], last); last = dist[v]; }
  if(stopat >= 0 && dist.count(stopat)) CHECK(visits.back() == stopat, "search did not stop when told to"); else CHECK(seen.size() == dist.size(), "visited %zu of %zu reachable vertices", seen.size(), dist.size());
  s.note("%d vertices %zu edges, %zu reachable", w.n, w.e.size(), dist.size()); s.nontrivial(dist.size() >= 3); if(stopat >= 0) s.label("stopped early");
}
static int ek(int n, const std::vector<std::array<int, 3>>& es, int a, int b)
{
  std::vector<std::vector<int>> c(n, std::vector<int>(n)); for(auto& e : es) if(e[0] != e[1]) c[e[0]][e[1]] += e[2]; int f = 0;
  for(;;) { std::vector<int> p(n, -1); p[a] = a; std::queue<int> q; q.push(a); while(!q.empty()) { int u = q.front(); q.pop(); for(int v = 0; v < n; ++v) if(p[v] < 0 && c[u][v] > 0) { p[v] = u; q.push(v); } } if(p[b] < 0) return f; int m = 1 << 30; for(int v = b; v != a; v = p[v]) m = std::min(m, c[p[v]][v]); for(int v = b; v != a; v = p[v]) { c[p[v]][v] -= m; c[v][p[v]] += m; } f += m; }
}
template<class G> static int flowcheck(G& g, const std::vector<typename G::EDGE_*>& es, const std::vector<int>& caps, int a, int b)
{
  std::map<int, int> bal; for(size_t i = 0; i < es.size(); ++i) { CHECK(es[i]->data.capacity == caps[i], "capacity changed"); CHECK(es[i]->data.flow >= 0 && es[i]->data.flow <= caps[i], "edge %zu carries %d of %d", i, es[i]->data.flow, caps[i]); bal[es[i]->from] -= es[i]->data.flow; bal[es[i]->to] += es[i]->data.flow; }
  for(auto& p : bal) if(p.first != a && p.first != b) CHECK(p.second == 0, "vertex %d does not conserve flow (%d)", p.first, p.second); CHECK(bal[a] == -bal[b], "source/sink imbalance"); return bal[b];
}
PROP(maxflow, 2, pbt::LEAKCHECK, "network whose maximum flow is positive")
{
  Net w = net(s); typedef internal::__edge_MaxFlow<void> ED; typedef Graph<ED, void, uint16_t, StandardAllocator<Edge<ED, uint16_t>>> G; G g; std::vector<int> id; for(int i = 0; i < w.n; ++i) id.push_back(g.AddNode());
  if(s.boolean()) { size_t k = s.draw(w.n); g.RemoveNode((uint16_t)id[k]); int x = g.AddNode(); int y = g.AddNode(); g.RemoveNode((uint16_t)x); id[k] = y; s.label("sparse indices"); }
  std::vector<typename G::EDGE_*> es; std::vector<int> caps; for(auto& e : w.e) { ED d = { 0, e[2] }; es.push_back(g.AddEdge((uint16_t)id[e[0]], (uint16_t)id[e[1]], &d)); caps.push_back(e[2]); s.note("%d->%d cap %d", e[0], e[1], e[2]); }
  int a = (int)s.draw(w.n), b = (int)s.draw(w.n - 1); if(b >= a) ++b; s.note("from %d to %d", a, b);
  MaxFlow_PushRelabel(g, (uint16_t)id[a], (uint16_t)id[b]); int f = flowcheck(g, es, caps, id[a], id[b]), best = ek(w.n, w.e, a, b); CHECK(f == best, "flow %d, maximum %d", f, best); CHECK((size_t)g.NumEdges() == w.e.size() && (int)g.NumNodes() == w.n, "graph changed"); s.nontrivial(best > 0);
}
PROP(circulation, 1, pbt::LEAKCHECK, "circulation problem with >=1 source, >=1 sink and >=1 lower bound")
{
  Net w = net(s); typedef internal::__edge_MaxFlow<internal::__edge_LowerBound<void>> ED; typedef internal::__vertex_Demand<void> VD; typedef Graph<ED, VD, uint16_t, StandardAllocator<Edge<ED, uint16_t>>> G; G g; std::vector<int> dem(w.n), low; bool lbs = false, src = false, snk = false;
  // start from a feasible flow half of the time so that feasible instances are common
  bool feas = s.boolean(); std::vector<int> fl; for(auto& e : w.e) { int l = e[2] ? (int)s.draw(e[2] + 1) / 2 : 0; low.push_back(l); lbs |= l > 0; fl.push_back(l + (int)s.draw(e[2] - l + 1)); }
  if(feas) for(size_t i = 0; i < w.e.size(); ++i) { dem[w.e[i][0]] -= fl[i]; dem[w.e[i][1]] += fl[i]; } else for(auto& d : dem) d = s.chance(1, 2) ? 0 : (int)s.draw(11) - 5;
  if(!feas && s.boolean()) { int t = 0; for(auto d : dem) t += d; dem[0] -= t; }
  for(int d : dem) { src |= d < 0; snk |= d > 0; } for(int i = 0; i < w.n; ++i) { VD v = { dem[i] }; g.AddNode(&v); } std::vector<typename G::EDGE_*> es; for(size_t i = 0; i < w.e.size(); ++i) { ED d = {}; d.capacity = w.e[i][2]; d.d.data.lowerbound = low[i]; es.push_back(g.AddEdge((uint16_t)w.e[i][0], (uint16_t)w.e[i][1], &d)); s.note("%d->%d cap %d low %d", w.e[i][0], w.e[i][1], w.e[i][2], low[i]); }
  int total = 0; for(int d : dem) total += d; uint16_t a, b; LowerBound_Circulation(g); int r = Circulation_MaxFlow(g, a, b); CHECK((r != 0) == (total != 0), "total demand %d reported as %d", total, r); MaxFlow_PushRelabel(g, a, b);
  bool sat = total == 0; int out = 0; for(auto e = g[a].to; e; e = e->next) { sat &= e->data.flow == e->data.capacity; out += e->data.flow; } for(auto e = g[b].from; e; e = e->alt.next) sat &= e->data.flow == e->data.capacity; g.RemoveNode(a); g.RemoveNode(b); CHECK((int)g.NumNodes() == w.n && (size_t)g.NumEdges() == w.e.size(), "removing the super source and sink left extra elements");
  // independent oracle: feasibility by maximum flow on an explicitly built network
  std::vector<std::array<int, 3>> o; std::vector<int> d2 = dem; for(size_t i = 0; i < w.e.size(); ++i) { o.push_back({ w.e[i][0], w.e[i][1], w.e[i][2] - low[i] }); d2[w.e[i][0]] += low[i]; d2[w.e[i][1]] -= low[i]; } int need = 0; for(int i = 0; i < w.n; ++i) { if(d2[i] < 0) { o.push_back({ w.n, i, -d2[i] }); need += -d2[i]; } else if(d2[i] > 0) o.push_back({ i, w.n + 1, d2[i] }); } bool ok = total == 0 && ek(w.n + 2, o, w.n, w.n + 1) == need; if(feas) CHECK(ok, "oracle error"); CHECK(sat == ok, "reduction says %s, problem is %s", sat ? "feasible" : "infeasible", ok ? "feasible" : "infeasible");
  if(ok) { std::vector<int> bal(w.n); for(size_t i = 0; i < es.size(); ++i) { int f = es[i]->data.flow + low[i]; CHECK(f >= low[i] && f <= w.e[i][2], "edge %zu carries %d outside [%d,%d]", i, f, low[i], w.e[i][2]); bal[w.e[i][0]] -= f; bal[w.e[i][1]] += f; } for(int i = 0; i < w.n; ++i) CHECK(bal[i] == dem[i], "vertex %d receives %d, demands %d", i, bal[i], dem[i]); s.label("feasible"); }
  s.nontrivial(src && snk && lbs);
}
