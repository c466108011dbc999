// G03: second adjacencies
#include "model.h"
using namespace agi;
typedef std::multiset<std::vector<int64_t> > MS;

static int64_t vid(Ngraph* g, GraphVertex* v) { return v ? g->globalID(v) : -1; }
static std::vector<int64_t> eid(Ngraph* g, GraphEdge* e) {      // an edge by content: global id, or end points and weight
  if (!e) return {-1};
  if (g->isHyper()) return {g->globalID(e)};
  double w = g->weight(e); int64_t b; memcpy(&b, &w, 8);
  return {vid(g, g->u(e)), vid(g, g->v(e)), b};
}
static void checkVev(Ngraph* g, const Model& m, const Owners& own, int t, bool comp, const char* when) {
  // incident edges per local vertex, from the model
  int me = self();
  std::vector<std::vector<int> > inc(m.nv());
  for (size_t i = 0; i < m.e[t].size(); i++) {
    const MEdge& e = m.e[t][i];
    if (m.hyper) { for (int p : e.pins) if (own[p] == me) inc[p].push_back((int)i); }
    else if (own[e.pins[0]] == me) inc[e.pins[0]].push_back((int)i);
  }
  VertexIterator* vi = g->begin(); GraphVertex* v; long n = 0;
  while ((v = g->iterate(vi))) {
    int x = m.find(g->globalID(v));
    std::vector<int> ex;
    for (int i : inc[x]) { if (m.hyper) for (int p : m.e[t][i].pins) ex.push_back(p); else ex.push_back(m.e[t][i].pins[1]); }
    if (comp) { std::sort(ex.begin(), ex.end()); ex.erase(std::unique(ex.begin(), ex.end()), ex.end()); ex.erase(std::remove(ex.begin(), ex.end(), x), ex.end()); }
    std::vector<int> got; VEVIterator* it = g->vev_begin(v, t); GraphVertex* u; size_t lim = ex.size() + 5;
    VEVIterator* end = g->vev_end(v, t);
    for (u = g->iterate(it); it != end; u = g->iterate(it)) { got.push_back(u ? m.find(g->globalID(u)) : -1); if (got.size() > lim) break; }
    std::sort(got.begin(), got.end()); std::sort(ex.begin(), ex.end());
    if (got != ex) { viol("%s: vertex-edge-vertex list (%s) of vertex %lld over type %d has %zu entries, %zu expected (or other entities)", when, comp ? "compressed" : "per path", (long long)m.vgid[x], t, got.size(), ex.size()); return; }
    n += got.size();
  }
  note("vev_lists"); note("vev_entries", n);
}
static void checkEve(Ngraph* g, const Model& m, const Owners& own, int t, bool comp, const char* when) {
  int me = self();
  std::vector<std::vector<int> > inc(m.nv());
  for (size_t i = 0; i < m.e[t].size(); i++) {
    const MEdge& e = m.e[t][i];
    if (m.hyper) { for (int p : e.pins) if (own[p] == me) inc[p].push_back((int)i); }
    else if (own[e.pins[0]] == me) inc[e.pins[0]].push_back((int)i);
  }
  auto mid = [&](int i) -> std::vector<int64_t> { const MEdge& e = m.e[t][i]; if (m.hyper) return {e.id}; int64_t b; memcpy(&b, &e.w, 8); return {m.vgid[e.pins[0]], m.vgid[e.pins[1]], b}; };
  std::unordered_map<int64_t, int> byId; if (m.hyper) for (size_t i = 0; i < m.e[t].size(); i++) byId[m.e[t][i].id] = (int)i;
  EdgeIterator* ei = g->begin(t); GraphEdge* e; long n = 0;
  while ((e = g->iterate(ei))) {
    std::vector<int> pins;
    if (m.hyper) pins = m.e[t][byId.at(g->globalID(e))].pins; else pins = {m.find(vid(g, g->u(e))), m.find(vid(g, g->v(e)))};
    MS ex;
    if (!comp) { for (int p : pins) if (own[p] == me) for (int i : inc[p]) ex.insert(mid(i)); }
    else {
      std::set<int> d; for (int p : pins) if (own[p] == me) for (int i : inc[p]) d.insert(i);
      bool self1 = false; auto mine = eid(g, e);
      for (int i : d) { if (!self1 && mid(i) == mine) { self1 = true; continue; } ex.insert(mid(i)); }
    }
    MS got; EVEIterator* it = g->eve_begin(e); EVEIterator* end = g->eve_end(e); GraphEdge* u; size_t lim = ex.size() + 5;
    for (u = g->iterate(it); it != end; u = g->iterate(it)) {
      got.insert(eid(g, u)); if (comp && u && g->isEqual(u, e)) { viol("%s: compressed edge-vertex-edge list contains the edge itself", when); }
      if (got.size() > lim) break;
    }
    if (got != ex) { viol("%s: edge-vertex-edge list (%s) of an edge of type %d has %zu entries, %zu expected (or other entities)", when, comp ? "compressed" : "per path", t, got.size(), ex.size()); break; }
    n += got.size();
  }
  g->destroy(ei);
  note("eve_lists"); note("eve_entries", n);
}
static void run(Rng& r) {
  GenOpts o; o.maxV = genSize(r, 25, 80, 300); o.minV = std::max(1, o.maxV / 3); o.maxT = 5;
  genBig(o, 100);
  Model m = genModel(r, o);
  for (int t = 0; t < m.nt; t++) { double q = 0; for (auto& e : m.e[t]) q += (double)e.pins.size() * e.pins.size(); if (q > 2e5) { m.e[t].resize(m.e[t].size() / 20); } }
  Owners own = genOwners(r, m, C.np);
  caseInfo("%s %s", m.desc.c_str(), ownDesc(own, C.np).c_str());
  Ngraph* g = build(m, own, r);
  int state[8][2]; memset(state, -1, sizeof state);
  int ops = r.range(2, 10);
  for (int k = 0; k < ops; k++) {
    int t = r.below(m.nt), what = r.below(2), comp = r.below(2);
    if (what == 0) g->create_vev_adjacency(t, comp); else g->create_eve_adjacency(t, comp);
    const char* when = state[t][what] < 0 ? "built" : "rebuilt";
    state[t][what] = comp;
    if (what == 0) checkVev(g, m, own, t, comp, when); else checkEve(g, m, own, t, comp, when);
    if (r.chance(0.15)) {       // a migration and back to another distribution: adjacency is asked for again
      Owners to = genOwners(r, m, C.np);
      std::vector<part_t> p(g->numLocalVtxs() + 1); VertexIterator* vi = g->begin(); GraphVertex* v; int i = 0;
      while ((v = g->iterate(vi))) p[i++] = to[m.find(g->globalID(v))];
      g->repartition(p.data()); own = to; memset(state, -1, sizeof state); note("migrations");
    }
  }
  // all lists are independent of each other
  for (int t = 0; t < m.nt; t++) {
    if (state[t][0] >= 0) checkVev(g, m, own, t, state[t][0], "re-read");
    if (state[t][1] >= 0) checkEve(g, m, own, t, state[t][1], "re-read");
  }
  CheckOpts co("after building second adjacencies"); checkDistributed(g, m, own, co);
  destroyGraph(g);
  if (m.nv() < 2) trivialCase();
}
MODULE("G03", run, NULL, NULL);
