// S04: looking at a graph changes nothing; settings change only what is printed; graphs do not affect one another
#include "work.h"
#include <engpar_support.h>
#include <engpar_queue.h>
#include <engpar.h>
#include <unistd.h>
#include <sys/stat.h>
#include <fstream>
using namespace agi;
extern "C" void Zoltan_Srand(unsigned int, void*);
namespace engpar { int countDisconnected(Ngraph* g); }
static uint64_t hm(uint64_t h, uint64_t v) { return mix(h * 31 + 7, v); }
static uint64_t db(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }

// a graph under observation, with data attached to it
struct Watched {
  Ngraph* g; Model m; Owners own; bool second[8]; bool recorded;
  std::vector<GraphTag*> tags; std::vector<int> kind, where;
};
typedef std::vector<std::pair<const char*, uint64_t> > State;
// everything the graph says about itself on this process, in the order it says it
static State state(Watched& W, bool collective) {
  Ngraph* g = W.g; State s; uint64_t a, b; GraphVertex *v, *u; GraphEdge* e;
  a = hm(hm(1, g->numLocalVtxs()), g->numGlobalVtxs()); a = hm(hm(a, g->numGhostVtxs()), g->numTotalVtxs()); a = hm(hm(a, g->numEdgeTypes()), g->isHyper() * 2 + g->hasCoords());
  for (int t = 0; t < g->numEdgeTypes(); t++) { a = hm(hm(a, g->numLocalEdges(t)), g->numGlobalEdges(t)); a = hm(hm(a, g->numLocalPins(t)), g->numGlobalPins(t)); }
  s.push_back({"counts", a});
  a = 2; b = 3; VertexIterator* vi = g->begin();
  while ((v = g->iterate(vi))) { a = hm(hm(hm(a, g->globalID(v)), db(g->weight(v))), hm(g->owner(v), g->localID(v))); if (W.recorded) b = hm(b, g->originalOwner(v)); if (g->hasCoords()) for (int k = 0; k < 3; k++) a = hm(a, db(g->coord(v)[k])); for (int t = 0; t < g->numEdgeTypes(); t++) a = hm(a, g->degree(v, t)); }
  s.push_back({"vertices", a}); if (W.recorded) s.push_back({"original owners", b});
  a = 4; GhostIterator* gi = g->beginGhosts();
  while ((v = g->iterate(gi))) a = hm(hm(hm(a, g->globalID(v)), db(g->weight(v))), g->owner(v));
  s.push_back({"ghosts", a});
  a = 5; b = 6;
  for (int t = 0; t < g->numEdgeTypes(); t++) {
    EdgeIterator* ei = g->begin(t);
    while ((e = g->iterate(ei))) { a = hm(hm(a, g->isHyper() ? g->globalID(e) : 0), hm(db(g->weight(e)), g->degree(e))); Peers p; g->getResidence(e, p); std::set<int> q(p.begin(), p.end()); for (int x : q) a = hm(a, x); PinIterator* pi = g->pins(e); while ((v = g->iterate(pi))) a = hm(a, g->globalID(v)); g->destroy(pi); }
    g->destroy(ei);
    vi = g->begin();
    while ((v = g->iterate(vi))) { EdgeIterator* x = g->edges(v, t); while ((e = g->iterate(x))) b = hm(b, g->isHyper() ? g->globalID(e) : g->globalID(g->v(e))); g->destroy(x); GraphIterator* n = g->adjacent(v, t); while ((u = g->iterate(n))) b = hm(b, g->globalID(u)); g->destroy(n); }
  }
  s.push_back({"edges", a}); s.push_back({"incidences", b});
  for (size_t k = 0; k < W.tags.size(); k++) {
    a = 8 + k; GraphTag* t = W.tags[k];
    auto val = [&](GraphVertex* x, GraphEdge* y) { if (x) a = hm(a, W.kind[k] == 0 ? (uint64_t)g->getIntTag(t, x) : W.kind[k] == 1 ? (uint64_t)g->getLongTag(t, x) : db(g->getDoubleTag(t, x))); else a = hm(a, W.kind[k] == 0 ? (uint64_t)g->getIntTag(t, y) : W.kind[k] == 1 ? (uint64_t)g->getLongTag(t, y) : db(g->getDoubleTag(t, y))); };
    if (W.where[k] == VTX_TYPE) { vi = g->begin(); while ((v = g->iterate(vi))) val(v, NULL); }
    else if (W.where[k] == -9) { gi = g->beginGhosts(); while ((v = g->iterate(gi))) val(v, NULL); }
    else { EdgeIterator* ei = g->begin(W.where[k]); while ((e = g->iterate(ei))) val(NULL, e); g->destroy(ei); }
    s.push_back({"attached data", a});
  }
  for (int t = 0; t < g->numEdgeTypes(); t++) if (W.second[t]) {
    a = 9; vi = g->begin();
    while ((v = g->iterate(vi))) { VEVIterator *it = g->vev_begin(v, t), *en = g->vev_end(v, t); int lim = 100000; for (u = g->iterate(it); it != en && lim--; u = g->iterate(it)) a = hm(a, g->globalID(u)); a = hm(a, 1); }
    s.push_back({"second adjacencies", a});
  }
  if (collective && W.recorded) { PartitionMap* pm = g->getPartition(); a = pm->size(); for (auto& p : *pm) a += hm(hm(10, p.first), p.second); delete pm; s.push_back({"partition map", a}); }
  WeightPartitionMap* wp = g->getWeightPartition(); a = 0; for (auto& x : *wp) { uint64_t c = hm(21, x.first); for (auto& y : x.second) c += hm(hm(22, y.first), db(y.second)); a += c; }
  s.push_back({"weight plan", a});
  return s;
}
static bool same(const State& a, const State& b, const std::string& what, const char* which) {
  if (a.size() != b.size()) { viol("%s: %s answers another set of questions", what.c_str(), which); return false; }
  for (size_t i = 0; i < a.size(); i++) if (a[i].second != b[i].second) { viol("%s changed the %s of %s", what.c_str(), a[i].first, which); return false; }
  note("states_compared"); return true;
}
static int cbI(Ngraph* g, GraphVertex* v) { return (int)(g->globalID(v) * 3 + self()); }
static long cbL(Ngraph* g, GraphVertex* v) { return (long)g->globalID(v) * 5 + self(); }
static double cbD(Ngraph* g, GraphVertex* v) { return g->globalID(v) * 0.5 + g->weight(v); }
static void attach(Watched& W, Rng& r) {
  Ngraph* g = W.g; int n = r.range(0, 4); uint64_t key = r.next();
  for (int k = 0; k < n; k++) {
    int kind = r.below(3), where = r.chance(0.5) ? (int)VTX_TYPE : r.chance(0.3) ? -9 : r.below(W.m.nt); GraphTag* t; GraphVertex* v; GraphEdge* e; uint64_t h = key + k;
    if (where == -9) t = kind == 0 ? g->createIntGhostTag(cbI) : kind == 1 ? g->createLongGhostTag(cbL) : g->createDoubleGhostTag(cbD);
    else {
      t = kind == 0 ? g->createIntTag(where) : kind == 1 ? g->createLongTag(where) : g->createDoubleTag(where);
      auto put = [&](GraphVertex* x, GraphEdge* y) { h = mix(h, 5); if (kind == 0) { if (x) g->setIntTag(t, x, (int)h); else g->setIntTag(t, y, (int)h); } else if (kind == 1) { if (x) g->setLongTag(t, x, (long)h); else g->setLongTag(t, y, (long)h); } else { double d = (h >> 11) * 0.25; if (x) g->setDoubleTag(t, x, d); else g->setDoubleTag(t, y, d); } };
      if (where == VTX_TYPE) { VertexIterator* vi = g->begin(); while ((v = g->iterate(vi))) put(v, NULL); }
      else { EdgeIterator* ei = g->begin(where); while ((e = g->iterate(ei))) put(NULL, e); g->destroy(ei); }
    }
    W.tags.push_back(t); W.kind.push_back(kind); W.where.push_back(where);
  }
}
static void detach(Watched& W) { for (GraphTag* t : W.tags) W.g->destroyTag(t); W.tags.clear(); W.kind.clear(); W.where.clear(); }
static void make(Watched& W, Rng& r, bool move) {
  GenOpts o; o.maxV = r.chance(0.7) ? 40 : 150; o.minV = 1; o.zeroDeg = r.chance(0.3); o.ids = 1; o.maxT = 4;
  W.m = genModel(r, o); W.own = genOwners(r, W.m, C.np); W.g = build(W.m, W.own, r); W.recorded = false; for (bool& x : W.second) x = false;
  if (r.chance(0.6)) { W.g->setOriginalOwners(); W.recorded = true; }
  if (move && r.chance(0.5)) { Owners to = genOwners(r, W.m, C.np); migrateTo(W.g, W.m, to, r.below(4)); W.own = to; }
  if (r.chance(0.4)) { int t = r.below(W.m.nt); W.g->create_vev_adjacency(t, r.chance(0.5)); W.second[t] = true; }
  attach(W, r);
}
// one way of looking at a graph; returns its name
static std::string look(Watched& W, Rng& r, Rng& mine) {
  Ngraph* g = W.g; GraphVertex *v, *u; GraphEdge* e; int k = r.below(18), t = r.below(W.m.nt); std::string pre = scratch() + strf("/s%d", C.caseIdx);
  switch (k) {
  case 0: { VertexIterator* vi = g->begin(); while ((v = g->iterate(vi)) && mine.chance(0.9)) { g->weight(v); g->owner(v); g->findGID(g->globalID(v)); EdgeIterator* x = g->edges(v, t); if ((e = g->iterate(x))) { g->isCut(e); g->u(e); } g->destroy(x); } return "an abandoned walk"; }
  case 1: { EdgeIterator* ei = g->begin(t); while ((e = g->iterate(ei)) && mine.chance(0.9)) { PinIterator* p = g->pins(e); g->iterate(p); g->destroy(p); Peers q; g->getResidence(e, q); for (int i = 0; i < C.np; i++) g->isResidentOn(e, i); g->isCut(e); } g->destroy(ei); return "looking at edges"; }
  case 2: checkValidity(g); return "the validity check";
  case 3: captureStdout(); engpar::evaluatePartition(g); releaseStdout(); return "evaluating the partition";
  case 4: { std::vector<char> b(1000, 0); captureStdout(); engpar::getImbalances(g, b.data(), r.chance(0.5)); releaseStdout(); return "asking for imbalances"; }
  case 5: for (int d = -1; d < W.m.nt; d++) { engpar::getWeight(g, d, false); engpar::getWeight(g, d, true); } return "asking for weights";
  case 6: { GraphTag* a = g->createIntGhostTag(cbI); GraphTag* b = g->createDoubleGhostTag(cbD); g->destroyTag(a); g->destroyTag(b); return "collecting ghost data"; }
  case 7: { GraphTag* a = g->createIntTag(VTX_TYPE); GraphTag* b = g->createDoubleTag(t); VertexIterator* vi = g->begin(); while ((v = g->iterate(vi))) g->setIntTag(a, v, -7); EdgeIterator* ei = g->begin(t); while ((e = g->iterate(ei))) g->setDoubleTag(b, e, -7.5); g->destroy(ei); g->destroyTag(a); g->destroyTag(b); return "attaching other data"; }
  case 8: { Migration* p = new Migration(g); VertexIterator* vi = g->begin(); while ((v = g->iterate(vi))) if (mine.chance(0.5)) p->insert(std::make_pair(v, mine.below(C.np))); delete p; return "a plan that is thrown away"; }
  case 9: { std::vector<GraphVertex*> gs; GhostIterator* gi = g->beginGhosts(); while ((u = g->iterate(gi))) gs.push_back(u); WeightMigration* w = new WeightMigration(g); VertexIterator* vi = g->begin(); while ((v = g->iterate(vi))) if (gs.size() && mine.chance(0.4)) w->insert(v, gs[mine.below((int)gs.size())], 0.25); delete w; return "a weight plan that is thrown away"; }
  case 10: { g->saveToFile(pre.c_str()); unlink((pre + strf("_%d.bgd", self())).c_str()); return "saving"; }
  case 11: { if (!g->hasCoords()) return "nothing"; int wh = r.below(3); GraphTag* x = wh == 0 ? NULL : wh == 1 ? g->createIntTag(VTX_TYPE) : NULL; if (x) { VertexIterator* vi = g->begin(); while ((v = g->iterate(vi))) g->setIntTag(x, v, 1); } writeVTK(g, pre.c_str(), x, x ? VTX_TYPE : NO_TYPE); if (x) g->destroyTag(x); PCU_Barrier(); unlink((pre + strf("%d.vtu", self())).c_str()); if (!self()) unlink((pre + ".pvtu").c_str()); return "rendering"; }
  case 12: { engpar::Queue* q = engpar::createIterationQueue(g); delete q; return "the plain selection order"; }
  case 13: { engpar::DiffusiveInput* in = engpar::createDiffusiveInput(g, 0.1); in->bfsPush = r.chance(0.5); engpar::Queue* q = engpar::createDistanceQueue(in); delete q; delete in; return "the distance based order"; }
  case 14: { captureStdout(); g->printStats(); releaseStdout(); return "printing statistics"; }
  case 15: if (W.recorded) { PartitionMap* pm = g->getPartition(); pm->clear(); delete pm; } return "asking for the partition";
  case 16: engpar::countDisconnected(g); return "counting components";
  default: { VertexIterator* vi = g->begin(); while ((v = g->iterate(vi))) { GraphIterator* a = g->adjacent(v, t); GraphIterator* b = g->adjacent(v, t); g->iterate(a); u = g->iterate(b); if (u) { g->edge(b); } g->destroy(a); g->destroy(b); } return "walking neighbours twice at once"; }
  }
}
// something that changes the graph
static std::string change(Watched& W, Rng& r, Rng& mine) {
  Ngraph* g = W.g; GraphVertex *v, *u; int k = r.below(7);
  detach(W); for (bool& x : W.second) x = false;
  switch (k) {
  case 0: case 1: { Owners to = genOwners(r, W.m, C.np); migrateTo(g, W.m, to, r.below(4)); W.own = to; return "migrating"; }
  case 2: { DOpts d = genDiffusive(r, W.m); d.verbosity = -1; d.maxIter = std::min(d.maxIter, 6); captureStdout(); engpar::balance(d.make(g), -1); releaseStdout(); if (C.np > 1) W.recorded = true; return "balancing"; }
  case 3: { std::vector<GraphVertex*> gs; GhostIterator* gi = g->beginGhosts(); while ((u = g->iterate(gi))) gs.push_back(u); WeightMigration* w = new WeightMigration(g); VertexIterator* vi = g->begin(); while ((v = g->iterate(vi))) if (gs.size() && mine.chance(0.4)) w->insert(v, gs[mine.below((int)gs.size())], g->weight(v) * 0.25); g->migrate(w); return "moving weight"; }
  case 4: g->resetOwnership(); W.recorded = true; return "resetting ownership";
  case 5: { destroyGraph(g); make(W, r, false); return "destroying and rebuilding"; }
  default: { g->create_vev_adjacency(0, r.chance(0.5)); if (g->isHyper()) g->create_eve_adjacency(0, r.chance(0.5)); return "building second adjacencies"; }
  }
}
static std::string slurp(const std::string& f) { std::ifstream i(f); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }

static void watching(Rng& r, Rng& mine) {
  Watched A, B; make(A, r, true); make(B, r, true);
  caseInfo("%s ; %s", A.m.desc.c_str(), B.m.desc.c_str());
  State a = state(A, true), b = state(B, true); int steps = r.range(6, 16); std::string did;
  for (int i = 0; i < steps; i++) {
    int what = r.below(4); std::string s; bool ok;
    if (what < 2) { s = look(A, r, mine); ok = same(a, state(A, true), s, "the graph"); ok = same(b, state(B, true), s, "another graph") && ok; note("looks"); }
    else if (what == 2) { s = look(B, r, mine); ok = same(b, state(B, true), s, "the graph"); ok = same(a, state(A, true), s, "another graph") && ok; note("looks"); }
    else { s = change(B, r, mine); ok = same(a, state(A, true), s, "another graph"); b = state(B, true); note("changes"); }
    if (!allOk(ok && !C.violsThisCase)) break;
  }
  bool first = r.chance(0.5);
  Watched& X = first ? A : B; Watched& Y = first ? B : A; State y = first ? b : a;
  destroyGraph(X.g); same(y, state(Y, true), "destroying a graph", "another graph"); 
  destroyGraph(Y.g);
}
static void settings(Rng& r, Rng& mine) {
  GenOpts o; o.maxV = r.chance(0.7) ? 40 : 120; o.minV = 1; o.zeroDeg = false; o.ids = 1; o.maxT = 4; Model m = genModel(r, o); Owners own = genOwners(r, m, C.np); Build bb = genBuild(r);
  int op = r.below(5), v = r.range(0, 3), v2 = r.range(-1, 3); bool log = r.chance(0.6), other = r.chance(0.5); DOpts d = genDiffusive(r, m); d.maxIter = std::min(d.maxIter, 10); double tol = 1.0 + 0.05 * r.range(1, 8), sf = 0.1 * r.range(1, 5); int et = r.below(m.nt), mi = r.range(1, 12); Owners to = genOwners(r, m, C.np); int how = r.below(4); uint64_t ok2 = r.next();
  static const char* nm[] = {"balancing", "balancing weights", "migrating", "saving and loading", "constructing"};
  caseInfo("%s verbosity %d/%d log=%d %s %s", nm[op], v, v2, log, m.desc.c_str(), op == 0 ? d.desc().c_str() : "");
  std::string pre = scratch() + strf("/t%d", C.caseIdx), dir = scratch() + strf("/log%d", C.caseIdx);
  State st[2]; uint64_t dig[2] = {0, 0}; Owners now[2]; std::string quiet; char cwd[4096]; bool here = getcwd(cwd, sizeof cwd) != NULL; std::string logged;
  for (int k = 0; k < 2; k++) {
    Zoltan_Srand(4711, NULL);
    if (k && here) { mkdir(dir.c_str(), 0700); PMPI_Barrier(MPI_COMM_WORLD); if (chdir(dir.c_str())) {} EnGPar_Set_Verbosity(v2); if (log) EnGPar_Open_Log(); } else EnGPar_Set_Verbosity(-1);
    captureStdout();
    Watched W; W.m = m; W.recorded = false; for (bool& x : W.second) x = false;
    W.g = build(m, own, bb);
    if (op == 0) { engpar::balance(d.make(W.g), k ? v : -1); W.recorded = C.np > 1; }
    else if (op == 1) { engpar::WeightInput* w = engpar::createWeightInput(W.g, tol, sf, et); w->maxIterations = mi; engpar::balanceWeights(w, k ? v : -1); }
    else if (op == 2) { W.g->setOriginalOwners(); W.recorded = true; migrateTo(W.g, m, to, how); }
    else if (op == 3) { W.g->saveToFile(pre.c_str()); PCU_Barrier(); Ngraph* h = createEmptyGraph(); h->loadFromFile(pre.c_str()); destroyGraph(W.g); W.g = h; PCU_Barrier(); unlink((pre + strf("_%d.bgd", self())).c_str()); }
    std::string out = releaseStdout(); if (!k) quiet = out;
    if (k) { if (log) EnGPar_Close_Log(); EnGPar_Set_Verbosity(-1); if (log && !C.rank) { logged = slurp("log.txt"); if (logged.empty()) viol("the log is empty"); unlink("log.txt"); } PMPI_Barrier(MPI_COMM_WORLD); if (here && chdir(cwd)) {} if (!C.rank) rmdir(dir.c_str()); }
    if (k == 1 && C.rank && v < 3 && op < 2 && C.np > 1 && !out.empty()) viol("process %d prints '%s' at verbosity %d", C.rank, out.substr(0, 60).c_str(), v);
    st[k] = state(W, true); dig[k] = localDigest(W.g); if (op < 3) gatherOwners(W.g, m, now[k], MPI_COMM_WORLD, nm[op]);
    destroyGraph(W.g);
    if (!k && other) { Rng q(ok2); Watched X; make(X, q, true); change(X, q, mine); look(X, q, mine); destroyGraph(X.g); }
  }
  if (C.np > 1 && op < 2 && !(op == 0 && d.partW) && !quiet.empty()) viol("%s quietly prints '%s'", nm[op], quiet.substr(0, 60).c_str());
  if (dig[0] != dig[1] || now[0] != now[1]) viol("%s gives another graph with other settings of verbosity and log%s", nm[op], other ? ", or after work on another graph" : "");
  else same(st[0], st[1], strf("%s with other settings of verbosity and log%s", nm[op], other ? " and after work on another graph" : ""), "the result");
  if (!logged.empty()) {
    // the log: what is called from here stands at the left margin, what it calls in turn is indented by one step
    size_t a = 0, depth = 0; int n = 0; bool one = logged.compare(0, 14, "constructGraph") == 0;
    static const char* names[] = {"constructGraph", "constructVerts", "constructEdges", "constructGhosts", "balance()", "makeBalancer", "balanceWeights", "setOriginalOwners", "getPartition"};
    while (a < logged.size()) {
      size_t e = logged.find('\n', a); if (e == std::string::npos) e = logged.size(); size_t s = 0; while (a + s < e && logged[a + s] == ' ') s++;
      int id = -1; for (int i = 0; i < 9; i++) if (logged.compare(a + s, strlen(names[i]), names[i]) == 0) id = i;
      if (id >= 0) {
        n++; int want = id == 0 || id == 5 || id == 6 || (id == 7 && op == 2) ? 0 : id <= 3 ? (op == 0 && depth && !one ? -1 : one ? (n <= 4 ? 2 : -1) : 0) : -1;
        if (s % 2 || s / 2 > depth + 1 || (want >= 0 && (int)s != want)) { viol("the log puts '%s' at column %zu", logged.substr(a, std::min<size_t>(e - a, 60)).c_str(), s); break; }
        depth = s / 2;
      }
      a = e + 1; }
    note("log_entries", n);
  }
  note("settings_compared");
}
static void oneCase(Rng& r) {
  Rng mine(mix(C.caseSeed, C.rank + 77));
  PCU_Comm_Order(true);
  if (r.chance(0.6)) watching(r, mine); else settings(r, mine);
}
MODULE("S04", oneCase, NULL, NULL);
