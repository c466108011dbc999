#include "scen.h"
#include <binGraph.h>
#include <engpar_queue.h>
#include <engpar_support.h>
#include <agiMigrationTimers.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace agi;
extern "C" void Zoltan_Srand(unsigned int, void*);

static uint64_t hm(uint64_t h, uint64_t v) { return mix(h * 31 + 7, v); }
static uint64_t db(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static uint64_t mapHash(PartitionMap* pm) { uint64_t s = pm->size(); for (auto& p : *pm) s += hm(hm(5, p.first), p.second); return s; }
static uint64_t fileHash(const std::string& f, bool& there) {
  FILE* i = fopen(f.c_str(), "rb"); there = i != NULL; if (!i) return 0; uint64_t h = 1469598103934665603ull; char b[65536]; size_t n;
  while ((n = fread(b, 1, sizeof b, i)) > 0) h = hashBytes(b, n, h); fclose(i); return h;
}
static int ti(Ngraph* g, GraphVertex* v) { return (int)(g->globalID(v) * 3 + self()); }
static long tl(Ngraph* g, GraphVertex* v) { return (long)g->globalID(v) * 5 + self(); }
static double td(Ngraph* g, GraphVertex* v) { return g->globalID(v) * 0.5 + self() + g->weight(v); }
static uint64_t ownHash(const Owners& o) { uint64_t h = 3; for (int x : o) h = hm(h, x); return h; }
static uint64_t ghostHash(Ngraph* g, GraphTag* t, int kind) {
  uint64_t s = 0; GhostIterator* it = g->beginGhosts(); GraphVertex* v;
  while ((v = g->iterate(it))) s += hm(hm(kind, g->globalID(v)), kind == 0 ? (uint64_t)g->getIntTag(t, v) : kind == 1 ? (uint64_t)g->getLongTag(t, v) : db(g->getDoubleTag(t, v)));
  return s;
}
static uint64_t secondHash(Ngraph* g, int t, bool hyperOk) {
  uint64_t s = 0; VertexIterator* vi = g->begin(); GraphVertex *v, *u;
  while ((v = g->iterate(vi))) {
    uint64_t a = 0; VEVIterator *it = g->vev_begin(v, t), *e = g->vev_end(v, t); int lim = 100000;
    for (u = g->iterate(it); it != e && lim--; u = g->iterate(it)) a += hm(11, g->globalID(u));
    s += hm(hm(12, g->globalID(v)), a);
  }
  if (hyperOk) {
    EdgeIterator* ei = g->begin(t); GraphEdge *x, *y;
    while ((x = g->iterate(ei))) { uint64_t a = 0; EVEIterator *it = g->eve_begin(x), *e = g->eve_end(x); int lim = 100000; for (y = g->iterate(it); it != e && lim--; y = g->iterate(it)) a += hm(13, g->globalID(y)); s += hm(hm(14, g->globalID(x)), a); }
    g->destroy(ei);
  }
  return s;
}
static uint64_t queueHash(Ngraph* g, int kind) {
  engpar::Queue* q;
  if (kind == 0) q = engpar::createIterationQueue(g);
  else { engpar::DiffusiveInput* in = engpar::createDiffusiveInput(g, 0.1); in->bfsPush = kind == 1; q = engpar::createDistanceQueue(in); delete in; }
  uint64_t h = 17; q->startIteration();
  for (engpar::Queue::iterator it = q->begin(); it != q->end(); ++it) {
    GraphEdge* e = q->get(it); uint64_t ps = 0; PinIterator* pi = g->pins(e); GraphVertex* v; while ((v = g->iterate(pi))) ps += hm(19, g->globalID(v)); g->destroy(pi);
    h = hm(h, ps);
  }
  delete q; return h;
}

// what a balancer reports, without the times
static std::string untimed(const std::string& s) {
  std::string o; size_t a = 0;
  while (a < s.size()) {
    size_t b = s.find('\n', a); if (b == std::string::npos) b = s.size(); std::string l = s.substr(a, b - a); a = b + 1;
    if (l.find("took") != std::string::npos || l.find("migration time") != std::string::npos || l.find("ratio") != std::string::npos || l.find("setup") != std::string::npos) continue;
    size_t q = l.find(" seconds"); if (q != std::string::npos) { size_t p = q; while (p && (isdigit(l[p - 1]) || strchr(".e-+", l[p - 1]))) p--; l.erase(p, q - p); }
    o += l + "\n";
  }
  return o;
}
bool scenario(uint64_t seed, const ScenOpts& so, Trace& T, std::string* desc) {
  Rng r(seed); int np = C.np; T.clear();
  std::string did;
  auto out = [&](const std::string& n, uint64_t h, bool gl) { T.push_back({n, h, gl}); did = n; };
  if (so.fresh && so.ordered) {     // messages are ordered unless somebody says otherwise, and remain so after a switch
    PCU_Comm_Free(); PCU_Comm_Init();
    if (seed & 64) { MPI_Comm c; PMPI_Comm_dup(MPI_COMM_WORLD, &c); PCU_Switch_Comm(c); PCU_Switch_Comm(MPI_COMM_WORLD); PMPI_Comm_free(&c); }
  }
  else PCU_Comm_Order(so.ordered);
  GenOpts o; o.maxV = so.maxV; o.minV = std::max(np, so.maxV / 3); o.maxT = so.maxT; o.zeroDeg = r.chance(0.4);
  bool files = r.chance(0.7), queues = r.chance(0.5), second = r.chance(0.5), bal = r.chance(0.6), wts = r.chance(0.4), sp = np > 1 && r.chance(0.5), vtk = r.chance(0.3), list = r.chance(0.4), prints = r.chance(0.6), rem = r.chance(0.3);
  if (so.maxV > 300) o.topo = (int[]){T_RING, T_GRIDN, T_GRIDS, T_RANDOM}[r.below(4)];   // a hub of thousands costs the selection cubic time
  if (sp || bal) o.zeroDeg = false;
  if (files) o.ids = 1;                 // the file format holds ids below 2^32
  Zoltan_Srand(4711, NULL);             // the external partitioner keeps a random state of its own
  Model m = genModel(r, o); Owners own = genOwners(r, m, np); Build bb = genBuild(r);
  if (desc) *desc = m.desc + strf(" files=%d queues=%d second=%d balance=%d weights=%d split=%d vtk=%d list=%d removal=%d", files, queues, second, bal, wts, sp, vtk, list, rem);
  if (so.skip & SK_FILES) files = vtk = list = false;
  if (so.skip & SK_BALANCE) bal = wts = false;
  if (so.skip & SK_SPLIT) sp = false;
  if (so.skip & SK_PRINT) prints = false;
  bool ok = true; std::string pre = so.dir + "/g";
  auto judge = [&](Ngraph* g, const char* when, bool exactGhosts) {
    if (!so.judge || !ok) return;
    CheckOpts co(when); std::set<int> gh; if (exactGhosts) { gh = expectedGhosts(m, own, self()); co.ghosts = &gh; }
    ok = checkDistributed(g, m, own, co);
  };
  Ngraph* g = build(m, own, bb);
  out("construction", localDigest(g), true); judge(g, "after construction", false);
  out("validity", checkValidity(g), true);
  if (second) { int t = r.below(m.nt); bool comp = r.chance(0.5); g->create_vev_adjacency(t, comp); if (m.hyper) g->create_eve_adjacency(t, comp); out("second adjacencies", secondHash(g, t, m.hyper), true); }
  int nm = r.range(1, 3);
  g->setOriginalOwners();
  for (int i = 0; i < nm; i++) {
    Owners to = genOwners(r, m, np); int how = r.below(4);
    migrateTo(g, m, to, how); own = to;
    out("migration", localDigest(g), true); judge(g, "after a migration", true);
    PartitionMap* pm = g->getPartition(); out("partition map", mapHash(pm), true); delete pm;
    GraphTag* a = g->createIntGhostTag(ti); out("int ghost data", ghostHash(g, a, 0), true);
    GraphTag* b = g->createLongGhostTag(tl); out("long ghost data", ghostHash(g, b, 1), true);
    GraphTag* c = g->createDoubleGhostTag(td); out("double ghost data", ghostHash(g, c, 2), true);
    g->destroyTag(a); g->destroyTag(b); g->destroyTag(c);
    if (r.chance(0.3)) g->resetOwnership();
  }
  if (prints) {
    captureStdout(); engpar::evaluatePartition(g, "p"); std::string s = releaseStdout(); out("printed evaluation", hashStr(s), false);
    size_t a = s.find("Disconnected"); if (a != std::string::npos && !m.hyper) s.erase(a, s.find('\n', a) - a);      // over one-way edges the components found depend on where one starts
    out("printed metrics", hashStr(s), true);
    char b[4096]; b[0] = 0; captureStdout(); engpar::getImbalances(g, b); releaseStdout(); out("imbalances", hashStr(b), true);
    double w = 0; for (int d = -1; d < m.nt; d++) w += engpar::getWeight(g, d, d < 0); out("weights", db(w), false);
  }
  if (queues && so.ordered) for (int k = 0; k < 3; k++) out("selection order", queueHash(g, k), false);
  if (files) {
    bool there; g->saveToFile(pre.c_str()); out("saved file", fileHash(pre + strf("_%d.bgd", C.rank), there), false);
    if (!there) { viol("no file was saved"); ok = false; }
    PCU_Barrier();
    Ngraph* h = createEmptyGraph(); h->loadFromFile(pre.c_str()); out("loaded graph", localDigest(h), true); judge(h, "after loading", false); destroyGraph(h);
    unlink((pre + strf("_%d.bgd", C.rank)).c_str());
  }
  if (vtk) {
    Model mc = m; bool there; GenOpts oc = o; oc.coords = 1; Rng cr(r.next()); Model mm = genModel(cr, oc); Owners oo = genOwners(cr, mm, np); Ngraph* h = build(mm, oo, cr);
    writeVTK(h, pre.c_str()); out("rendered piece", fileHash(pre + strf("%d.vtu", C.rank), there), true);
    PCU_Barrier(); out("rendered index", C.rank ? 0 : fileHash(pre + ".pvtu", there), true); PCU_Barrier();
    unlink((pre + strf("%d.vtu", C.rank)).c_str()); if (!C.rank) unlink((pre + ".pvtu").c_str());
    destroyGraph(h);
  }
  if (list) {
    std::string f = so.dir + "/list.ebin"; int n = r.range(2, 40), k = r.range(1, 120); uint64_t ek = r.next(), pk = r.next(); bool part = r.chance(0.5); std::string pf = so.dir + "/list.txt";
    if (!C.rank) { Rng q(ek); FILE* w = fopen(f.c_str(), "wb"); int mx = 0; for (int i = 0; i < k; i++) { int32_t x[2] = {q.below(n), q.below(n)}; fwrite(x, 4, 2, w); mx = std::max(mx, std::max(x[0], x[1])); } fclose(w);
      if (part) { Rng q2(pk); w = fopen(pf.c_str(), "w"); for (int i = 0; i <= mx; i++) fprintf(w, "%d\n", q2.below(np)); fclose(w); } }
    PCU_Barrier();
    std::vector<char> a(f.begin(), f.end()), b(pf.begin(), pf.end()); a.push_back(0); b.push_back(0);
    Ngraph* h = createBinGraph(a.data(), part ? b.data() : NULL); out("loaded edge list", localDigest(h), true); destroyGraph(h);
    PCU_Barrier(); if (!C.rank) { unlink(f.c_str()); unlink(pf.c_str()); }
  }
  DOpts d = genDiffusive(r, m); d.verbosity = -1; if (!(d.lazy && so.maxV < 100)) { d.maxIter = std::min(d.maxIter, 10); d.maxPerType = std::min(d.maxPerType, 8); }
  if (bal) {
    g->resetOwnership(); Owners rec = own;
    if (so.verbosity >= 0) captureStdout();
    engpar::balance(d.make(g), so.verbosity);
    if (so.verbosity >= 0) { std::string s = releaseStdout(); out("report of the balancer", hashStr(untimed(s)), false); }
    ok = gatherOwners(g, m, own, MPI_COMM_WORLD, "after balancing") && ok;
    if (ok) { out("balancing", ownHash(own) + localDigest(g), false); judge(g, "after balancing", false);
      PartitionMap* pm = g->getPartition(); if (so.judge) for (auto& p : *pm) { int x = m.find(p.first); if (x < 0 || rec[x] != C.rank || own[x] != p.second) { viol("the partition map after balancing is wrong for vertex %ld", (long)p.first); ok = false; break; } } delete pm; }
    ok = allOk(ok);
  }
  double tol = 1.0 + 0.05 * r.range(1, 10), sf = 0.1 * r.range(1, 5); int et = r.below(m.nt), wi = r.range(1, 25); Owners to = genOwners(r, m, np); int how = r.below(4);
  if (ok && rem) { int t = r.below(m.nt); g->removeEdges(t); uint64_t s = g->numLocalEdges(t) + g->numGlobalEdges(t); out("removal", s + localDigest(g), so.ordered ? true : true); }
  if (ok && wts && np > 1 && !rem) {
    engpar::WeightInput* w = engpar::createWeightInput(g, tol, sf, et); if (wi % 3) w->maxIterations = wi; if (so.verbosity >= 0) captureStdout();
    engpar::balanceWeights(w, so.verbosity);
    if (so.verbosity >= 0) { std::string s = releaseStdout(); out("report of the weight balancer", hashStr(untimed(s)), false); }
    WeightPartitionMap* wp = g->getWeightPartition(); uint64_t s = 0; for (auto& x : *wp) { uint64_t a = hm(21, x.first); for (auto& y : x.second) a += hm(hm(22, y.first), db(y.second)); s += a; }
    out("weight balancing", localDigest(g) + s, false);
  }
  destroyGraph(g);
  if (ok && sp) {
    int method = r.below(3); bool local = method == 1; int k = r.range(1, np), factor = r.range(1, np); bool sc = r.chance(0.5);
    Groups G = local ? makeGroups(r, 0, sc, factor) : makeGroups(r, k, sc);
    GenOpts os; os.topo = r.chance(0.5) ? T_GRIDN : T_GRIDS; os.minV = 8 * np; os.maxV = 20 * np; os.maxT = 3; os.zeroDeg = false; os.sym = 1; os.weights = 1; os.ids = method == 2 ? 1 : -1; os.selfLoops = false;
    m = genModel(r, os); own = genOwners(r, m, G.k, 1); Build b2 = genBuild(r); double st = 1.02 + 0.02 * r.below(8); int se = r.below(m.nt);
    PCU_Switch_Comm(G.small);
    g = G.orig ? build(m, own, b2) : createEmptyGraph();
    engpar::SplitInput* in; std::vector<int> others(G.factor + 1, 0);
    if (local) { if (G.orig) others = G.parts[std::find(G.world.begin(), G.world.end(), C.rank) - G.world.begin()]; in = engpar::createLocalSplitInput(g, G.small, G.large, G.orig, G.factor, st, &others[0], se); }
    else in = engpar::createGlobalSplitInput(g, G.small, G.large, G.orig, st, se);
    engpar::split(in, method == 0 ? engpar::GLOBAL_PARMETIS : local ? engpar::LOCAL_PARMETIS : engpar::ZOLTAN_PHG);
    Owners now; ok = gatherOwners(g, m, now, MPI_COMM_WORLD, "after a split");
    if (ok) { own = now; out(strf("split %d", method), ownHash(now) + localDigest(g), true); if (so.judge) { CheckOpts co("after a split"); ok = checkDistributed(g, m, own, co); }
      PartitionMap* pm = g->getPartition(); out("partition map of the split", mapHash(pm), true); delete pm; }
    destroyGraph(g); PCU_Switch_Comm(MPI_COMM_WORLD); freeGroups(G);
  }
  PCU_Comm_Order(true);
  return allOk(ok);
}
// plans and objects that are made, changed and thrown away
void oddments(Rng& r) {
  GenOpts o; o.maxV = r.chance(0.3) ? 3 : 60; o.minV = 1; Model m = genModel(r, o); Owners own = genOwners(r, m, C.np); Build b = genBuild(r); Rng q(r.next() + C.rank);
  Ngraph* g = build(m, own, b); VertexIterator* it; GraphVertex* v;
  g->setOriginalOwners(); int kind = r.below(6), reps = r.range(1, 4);
  for (int k = 0; k < reps; k++) {
    Migration* p = new Migration(g); it = g->begin();
    while ((v = g->iterate(it))) if (q.chance(0.5)) p->insert(std::make_pair(v, q.below(C.np)));
    if (kind == 1) p->clear();
    if (kind == 2) { it = g->begin(); while ((v = g->iterate(it))) if (p->has(v)) p->get(v); }
    if (kind == 3 || r.chance(0.3)) { MigrationTimers* t = new MigrationTimers; t->addTimer("setup"); t->addTimer("comm"); t->addTimer("build"); t->addTimer("total"); g->migrate(p, t); t->processMax("total"); t->getTime("total"); delete t; }
    else if (kind == 4) g->migrate(p);
    else delete p;
    note("plans");
  }
  for (int k = 0; k < 3; k++) {
    WeightMigration* w = new WeightMigration(g); GhostIterator* gi = g->beginGhosts(); GraphVertex* u; std::vector<GraphVertex*> gs; while ((u = g->iterate(gi))) gs.push_back(u);
    it = g->begin(); while ((v = g->iterate(it))) if (gs.size() && q.chance(0.4)) w->insert(v, gs[q.below((int)gs.size())], q.unit());
    for (WeightMigration::iterator x = w->begin(); x != w->end(); ++x) { x.u(); x.v(); x.weight(); }
    if (kind == 0) w->clear();
    if (r.chance(0.5)) g->migrate(w); else delete w;
    note("weight_plans");
  }
  GraphTag* a = g->createIntTag(VTX_TYPE); GraphTag* c = g->createDoubleTag(r.below(m.nt)); GraphTag* l = g->createLongTag(VTX_TYPE);
  it = g->begin(); while ((v = g->iterate(it))) { g->setIntTag(a, v, 1); g->setLongTag(l, v, 2); g->getIntTag(a, v); }
  g->destroyTag(a); g->destroyTag(c); g->destroyTag(l);
  // long keys and prefixes
  std::string pre(r.chance(0.3) ? r.range(100, 5000) : r.below(40), 'k');
  captureStdout(); engpar::evaluatePartition(g, pre.c_str()); EnGPar_Status_Message("%s %d\n", pre.c_str(), 1); EnGPar_Status_Message(1, "%s\n", pre.c_str()); EnGPar_Warning_Message("%s\n", pre.c_str()); releaseStdout();
  EnGPar_Peak_Memory();
  if (r.chance(0.2)) {   // construction over an existing graph, with fewer and more edge types
    GenOpts o2; o2.maxV = 20; Model m2 = genModel(r, o2); Owners own2 = genOwners(r, m2, C.np); Build b2 = genBuild(r); build(m2, own2, b2, g); note("rebuilt");
  }
  destroyGraph(g);
}
