// P06: the selection order lists every boundary edge exactly once, farthest first
#include "work.h"
#include <engpar_queue.h>
using namespace agi;
struct Local {          // the part as the model sees it: held edges of type 0, adjacent through local vertices
  std::vector<int> held; std::vector<std::vector<int> > adj; std::vector<char> bnd; std::vector<int> piece; int comps;
};
static Local localOf(const Model& m, const Owners& own) {
  Local L; L.held = heldEdges(m, own, 0, C.rank); int n = (int)L.held.size(); L.adj.resize(n); L.bnd.assign(n, 0); L.piece.assign(n, -1);
  std::map<int, std::vector<int> > at;
  for (int i = 0; i < n; i++) for (int p : m.e[0][L.held[i]].pins) if (own[p] == C.rank) at[p].push_back(i); else L.bnd[i] = 1;
  for (auto& a : at) for (int x : a.second) for (int y : a.second) if (x != y) L.adj[x].push_back(y);
  std::vector<char> seen(n, 0); L.comps = 0;
  for (int s = 0; s < n; s++) if (!seen[s]) { L.comps++; std::vector<int> q(1, s); seen[s] = 1; while (!q.empty()) { int x = q.back(); q.pop_back(); L.piece[x] = L.comps - 1; for (int y : L.adj[x]) if (!seen[y]) { seen[y] = 1; q.push_back(y); } } }
  return L;
}
static std::vector<int> bfs(const Local& L, const std::vector<int>& seeds) {
  std::vector<int> d(L.held.size(), -1), q; for (int s : seeds) { d[s] = 0; q.push_back(s); }
  for (size_t i = 0; i < q.size(); i++) for (int y : L.adj[q[i]]) if (d[y] < 0) { d[y] = d[q[i]] + 1; q.push_back(y); }
  return d;
}
static void run(Rng& r) {
  GenOpts o; int k = r.below(10);
  o.maxV = genSize(r, 50, 150, 700); o.minV = std::max(2, o.maxV / 3); o.mode = r.chance(0.75) ? 1 : 0; o.zeroDeg = r.chance(0.3); o.maxT = 4;
  if (k < 6) o.topo = k < 3 ? T_GRIDN : k < 5 ? T_GRIDS : T_RING;
  genBig(o, 100);
  Model m = genModel(r, o);
  Owners own = genOwners(r, m, C.np, r.chance(0.6) ? 1 : -1);
  if (r.chance(0.3)) {          // a few vertices elsewhere: parts with deep interiors and odd boundaries
    int q = r.below(C.np); for (int& x : own) x = q; int n = r.range(1, 4); while (n--) own[r.below(m.nv())] = r.below(C.np);
  }
  if (r.chance(0.3)) {          // stripes: parts of several pieces of different sizes
    int w = r.range(2, std::max(2, m.nv() / 3)), q = 0, left = r.range(1, w), parts = r.chance(0.5) ? C.np : std::min(C.np, 2);
    for (int& x : own) { if (!left--) { q++; left = r.range(0, w - 1); } x = q % parts; }
  }
  bool mig = r.chance(0.3); Owners to = genOwners(r, m, C.np, 1);
  caseInfo("%s %s%s", m.desc.c_str(), ownDesc(own, C.np).c_str(), mig ? " migrated" : "");
  Ngraph* g = build(m, own, r);
  if (mig) { migrateTo(g, m, to, r.below(4)); own = to; }
  Local L = localOf(m, own);
  // identify edges of the graph by position in L.held
  std::map<GraphEdge*, int> idx; std::unordered_map<gidt, int> byId; std::map<std::pair<int, int>, std::vector<int> > byEnds;
  for (size_t i = 0; i < L.held.size(); i++) { const MEdge& e = m.e[0][L.held[i]]; if (m.hyper) byId[e.id] = (int)i; else byEnds[{e.pins[0], e.pins[1]}].push_back((int)i); }
  EdgeIterator* ei = g->begin(0); GraphEdge* e;
  while ((e = g->iterate(ei))) {
    if (m.hyper) { auto f = byId.find(g->globalID(e)); if (f != byId.end()) idx[e] = f->second; }
    else { auto& v = byEnds[{m.find(g->globalID(g->u(e))), m.find(g->globalID(g->v(e)))}]; if (!v.empty()) { idx[e] = v.back(); v.pop_back(); } }
  }
  g->destroy(ei);
  int nb = 0; for (char b : L.bnd) nb += b;
  std::vector<int> front; for (size_t i = 0; i < L.held.size(); i++) if (L.bnd[i]) front.push_back((int)i);
  // each piece has its own centre: its edges farthest from the boundary; pieces with a shallower centre, then smaller ones, are emptied first
  std::vector<int> d1 = bfs(L, front), deep, depth(L.comps, -1), size(L.comps, 0);
  for (size_t i = 0; i < d1.size(); i++) { int c = L.piece[i]; size[c]++; depth[c] = std::max(depth[c], d1[i]); }
  for (size_t i = 0; i < d1.size(); i++) if (d1[i] >= 0 && d1[i] == depth[L.piece[i]]) deep.push_back((int)i);
  std::vector<int> d2 = bfs(L, deep); int bp = 0; for (int c = 0; c < L.comps; c++) bp += depth[c] >= 0;
  for (int kind = 0; kind < 3; kind++) {
    engpar::Queue* q; const char* nm = kind == 0 ? "plain" : kind == 1 ? "distance (push)" : "distance (pull)";
    if (kind == 0) q = engpar::createIterationQueue(g);
    else { engpar::DiffusiveInput* in = engpar::createDiffusiveInput(g, 0.1); in->bfsPush = kind == 1; q = engpar::createDistanceQueue(in); delete in; }
    q->startIteration();
    std::vector<char> seen(L.held.size(), 0); std::vector<char> left(L.comps, 0); int prev = 0, last = -1, n = 0;
    for (engpar::Queue::iterator it = q->begin(); it != q->end(); ++it) {
      GraphEdge* x = q->get(it); auto f = idx.find(x); n++;
      if (f == idx.end()) { viol("the %s order lists something that is no edge of type 0 of this part", nm); break; }
      int i = f->second;
      if (!L.bnd[i]) { viol("the %s order lists edge %d, which is on no part boundary", nm, i); break; }
      if (seen[i]++) { viol("the %s order lists edge %d twice", nm, i); break; }
      if (kind && m.hyper) {
        int c = L.piece[i];
        if (last >= 0 && c != last) {
          if (left[c]) { viol("the %s order returns to a piece of the part it had left (at edge %d)", nm, i); break; }
          left[last] = 1;
          if (depth[c] < depth[last]) { viol("the %s order lists a piece of depth %d before one of depth %d", nm, depth[last], depth[c]); break; }
          if (depth[c] == depth[last] && size[c] < size[last]) { viol("the %s order lists a piece of %d edges before one of %d", nm, size[last], size[c]); break; }
        }
        else if (last >= 0 && d2[i] > prev) { viol("the %s order lists an edge at distance %d from the centre before one at %d", nm, prev, d2[i]); break; }
        last = c; prev = d2[i];
      }
    }
    if (C.violsThisCase == 0 && n != nb) viol("the %s order lists %d edges, %d are on the part boundary", nm, n, nb);
    delete q;
    note("orders_judged"); note("edges_listed", n);
    if (kind && m.hyper && nb > 1) { note("distance_orders_judged"); int a = 1 << 30, b = -1; for (int i : front) { a = std::min(a, d2[i]); b = std::max(b, d2[i]); } if (b > a) note("orders_with_several_distances"); }
    if (kind && bp > 1) note(m.hyper ? "disconnected_orders_judged" : "disconnected_orders_listed");
  }
  bool any = !allOk(nb == 0);
  if (!any) trivialCase();
  destroyGraph(g);
}
MODULE("P06", run, NULL, NULL);
