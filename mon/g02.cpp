// G02: every traversal agrees with every other one
#include "model.h"
#include "agiMigration.h"
using namespace agi;

struct Walk {        // one open traversal; next() yields a canonical value, ends with false
  std::function<bool(uint64_t&)> next; std::function<void()> close; std::vector<uint64_t> seen, ref; bool ended; const char* kind;
};
static Walk openWalk(Ngraph* g, int kind, int t, GraphVertex* v, GraphEdge* e) {
  Walk w; w.ended = false;
  switch (kind) {
    case 0: { w.kind = "vertices"; VertexIterator* it = g->begin(); w.next = [=](uint64_t& x) mutable { GraphVertex* q = g->iterate(it); x = (uint64_t)q; return q != NULL; }; w.close = [] {}; break; }
    case 1: { w.kind = "ghosts"; GhostIterator* it = g->beginGhosts(); w.next = [=](uint64_t& x) mutable { GraphVertex* q = g->iterate(it); x = (uint64_t)q; return q != NULL; }; w.close = [] {}; break; }
    case 2: { w.kind = "edges of a type"; EdgeIterator* it = g->begin(t); w.next = [=](uint64_t& x) mutable { GraphEdge* q = g->iterate(it); x = (uint64_t)q; return q != NULL; }; w.close = [=] { g->destroy(it); }; break; }
    case 3: { w.kind = "edges of a vertex"; EdgeIterator* it = g->edges(v, t); w.next = [=](uint64_t& x) mutable { GraphEdge* q = g->iterate(it); x = (uint64_t)q; return q != NULL; }; w.close = [=] { g->destroy(it); }; break; }
    case 4: { w.kind = "pins"; PinIterator* it = g->pins(e); w.next = [=](uint64_t& x) mutable { GraphVertex* q = g->iterate(it); x = (uint64_t)q; return q != NULL; }; w.close = [=] { g->destroy(it); }; break; }
    default: { w.kind = "neighbours"; GraphIterator* it = g->adjacent(v, t); w.next = [=](uint64_t& x) mutable { GraphVertex* q = g->iterate(it); x = (uint64_t)q * 131 + (q ? (uint64_t)g->edge(it) : 0); return q != NULL; }; w.close = [=] { g->destroy(it); }; break; }
  }
  return w;
}
static void interleaved(Ngraph* g, Rng& r) {
  std::vector<GraphVertex*> vs; VertexIterator* vi = g->begin(); GraphVertex* v;
  while ((v = g->iterate(vi))) vs.push_back(v);
  std::vector<std::vector<GraphEdge*> > es(g->numEdgeTypes());
  for (int t = 0; t < g->numEdgeTypes(); t++) { EdgeIterator* ei = g->begin(t); GraphEdge* e; while ((e = g->iterate(ei))) es[t].push_back(e); g->destroy(ei); }
  std::vector<Walk> ws;
  int k = r.range(2, 7);
  for (int i = 0; i < k; i++) {
    int kind = r.below(6), t = r.below(g->numEdgeTypes());
    GraphVertex* x = vs.empty() ? NULL : vs[r.below((int)vs.size())];
    GraphEdge* e = es[t].empty() ? NULL : es[t][r.below((int)es[t].size())];
    if ((kind == 3 || kind == 5) && !x) kind = 0;
    if (kind == 4 && !e) kind = 1;
    Walk a = openWalk(g, kind, t, x, e); uint64_t y; long guard = 0;
    while (a.next(y)) { a.ref.push_back(y); if (++guard > 10000000) { viol("a walk over %s does not end", a.kind); break; } }
    a.close();
    Walk b = openWalk(g, kind, t, x, e); b.ref = a.ref; ws.push_back(b);
  }
  int open = k; long steps = 0;
  while (open) {
    int i = r.below(k); if (ws[i].ended) { int j = 0; while (ws[j].ended) j++; i = j; }
    uint64_t y; steps++;
    bool more = ws[i].next(y);
    if (more) { ws[i].seen.push_back(y); if (ws[i].seen.size() > ws[i].ref.size()) { viol("a walk over %s yields more when other walks are open", ws[i].kind); more = false; } }
    if (!more || r.chance(0.02)) {        // finished, or abandoned half way
      bool prefix = ws[i].seen.size() <= ws[i].ref.size() && std::equal(ws[i].seen.begin(), ws[i].seen.end(), ws[i].ref.begin());
      if (!prefix || (!more && ws[i].seen.size() != ws[i].ref.size())) viol("a walk over %s yields something else when other walks are open", ws[i].kind);
      ws[i].close(); ws[i].ended = true; open--;
    }
  }
  note("interleaved_walks", k); note("interleaved_steps", steps);
}
static void handles(Ngraph* g) {
  // every handle is equal to itself only, in whichever walk it shows up
  for (int t = 0; t < g->numEdgeTypes(); t++) {
    std::vector<GraphEdge*> all; EdgeIterator* ei = g->begin(t); GraphEdge* e; while ((e = g->iterate(ei))) all.push_back(e); g->destroy(ei);
    std::set<GraphEdge*> byVertex; long inc = 0, degs = 0, pinsLocal = 0;
    for (GraphEdge* x : all) {
      PinIterator* pi = g->pins(x); GraphVertex* p; int n = 0;
      while ((p = g->iterate(pi))) { if (g->owner(p) == self() && (g->isHyper() || n == 0)) pinsLocal++; n++; if (!g->isEqual(g->find(p), p)) viol("find() of a pin gives another vertex"); }
      g->destroy(pi);
      if (n != g->degree(x)) viol("degree of an edge is %d, its pins are %d", (int)g->degree(x), n);
      if (!g->isHyper()) { if (g->u(g->localID(x), t) != g->localID(g->u(x))) viol("u(lid) and u(edge) disagree"); }
    }
    VertexIterator* vi = g->begin(); GraphVertex* v;
    while ((v = g->iterate(vi))) {
      degs += g->degree(v, t);
      EdgeIterator* it = g->edges(v, t);
      while ((e = g->iterate(it))) {
        inc++; byVertex.insert(e);
        if ((long)g->localID(e) >= (long)all.size()) { viol("edge of a vertex with local id %d of %zu", (int)g->localID(e), all.size()); continue; }
        int eq = 0; if (all.size() < 300 || inc < 2000) for (GraphEdge* x : all) eq += g->isEqual(x, e); else eq = 1;
        if (eq != 1) viol("edge found through a vertex equals %d edges of the type", eq);
      }
      g->destroy(it);
    }
    if (inc != degs || degs != pinsLocal) viol("type %d: %ld vertex degrees, %ld incidences from vertices, %ld from pins", t, degs, inc, pinsLocal);
    note("handle_checks", inc);
  }
  std::vector<GraphVertex*> a; VertexIterator* vi = g->begin(); GraphVertex* v; while ((v = g->iterate(vi))) a.push_back(v);
  GhostIterator* gi = g->beginGhosts(); while ((v = g->iterate(gi))) a.push_back(v);
  for (size_t i = 0; i < a.size() && i < 60; i++) for (size_t j = 0; j < a.size() && j < 60; j++) if (g->isEqual(a[i], a[j]) != (i == j)) { viol("isEqual of two vertices wrong"); return; }
  for (GraphVertex* x : a) if (!g->isEqual(g->find(x), x) || !g->isEqual(g->findGID(g->globalID(x)), x)) { viol("lookup of a vertex gives another one"); return; }
}
static void run(Rng& r) {
  GenOpts o; o.maxV = genSize(r, 25, 120, C.tier == "thorough" ? 6000 : 1500); o.minV = std::max(1, o.maxV / 3);
  if (o.maxV > 1000) o.maxT = 2;
  o.maxPins = r.chance(0.2) ? 40 : 8;
  genBig(o, 100);
  Model m = genModel(r, o);
  Owners own = genOwners(r, m, C.np);
  caseInfo("%s %s", m.desc.c_str(), ownDesc(own, C.np).c_str());
  Ngraph* g = build(m, own, r);
  int steps = r.below(3);
  for (int s = 0; ; s++) {
    CheckOpts co(s ? "after migration" : "traversal"); co.order = !s;
    if (checkDistributed(g, m, own, co)) {
      handles(g);
      Rng lr(mix(C.caseSeed, C.rank * 100 + s));
      for (int k = 0; k < 3; k++) interleaved(g, lr);
    } else break;
    if (s == steps) break;
    Owners to = genOwners(r, m, C.np);
    std::vector<part_t> p(g->numLocalVtxs() + 1); VertexIterator* vi = g->begin(); GraphVertex* v; int i = 0;
    while ((v = g->iterate(vi))) p[i++] = to[m.find(g->globalID(v))];
    g->repartition(p.data());
    own = to;
  }
  destroyGraph(g);
  if (m.nv() < 2) trivialCase();
}
MODULE("G02", run, NULL, NULL);
