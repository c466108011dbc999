// F02: loading a binary edge list gives exactly the edges of the file
#include "model.h"
#include "work.h"
#include "faults.h"
#include <binGraph.h>
#include <engpar_support.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace agi;

struct List { std::vector<std::pair<int, int> > e; std::string desc; };
static List genList(Rng& r, bool big) {
  List L; int n = r.chance(0.3) ? r.range(1, 8) : r.chance(0.7) ? r.range(5, 80) : r.range(80, C.tier == "quick" ? 400 : 2000);
  int kind = r.below(9); if (big) { n = r.range(20000, 60000); kind = (int[]){0, 1, 1, 7, 8}[r.below(5)]; }
  const char* kn[] = {"ring", "random", "star in", "star out", "one edge", "sparse ids", "repeated edges", "self loops", "symmetric grid"};
  auto add = [&](int a, int b) { L.e.push_back({a, b}); };
  switch (kind) {
    case 0: for (int i = 0; i < n; i++) add(i, (i + 1) % n); break;
    case 1: { int k = r.range(big ? 3 * n : 1, 4 * n); for (int i = 0; i < k; i++) { int a = r.below(n), b = r.below(n); add(a, b); } break; }
    case 2: for (int i = 1; i < std::max(2, n); i++) add(i, 0); break;
    case 3: for (int i = 1; i < std::max(2, n); i++) add(0, i); break;
    case 4: { int a = r.below(n), b = r.below(n); add(a, b); break; }
    case 5: { int top = r.range(n, 20 * n + 10), k = r.range(1, n); for (int i = 0; i < k; i++) { int a = r.below(top), b = r.below(top); add(a, b); } break; }
    case 6: { int k = r.range(1, 6); for (int i = 0; i < k; i++) { int a = r.below(n), b = r.below(n), c = r.range(1, 9); for (int j = 0; j < c; j++) add(a, b); } break; }
    case 7: for (int i = 0; i < n; i++) { if (r.chance(0.6)) add(i, i); if (r.chance(0.5)) { int b = r.below(n); add(i, b); } } if (L.e.empty()) add(0, 0); break;
    default: { int w = std::max(1, (int)sqrt((double)n)); for (int i = 0; i < w * w; i++) { if (i % w + 1 < w) { add(i, i + 1); add(i + 1, i); } if (i + w < w * w) { add(i, i + w); add(i + w, i); } } if (L.e.empty()) add(0, 0); }
  }
  bool sh = r.chance(0.7); Rng q(r.next()); if (sh) q.shuffle(L.e);
  L.desc = strf("%s, %zu edges%s", kn[kind], L.e.size(), sh ? " shuffled" : "");
  return L;
}
static Model modelOf(const List& L) {
  Model m; m.hyper = false; m.coords = false; m.nt = 1; int mx = 0; for (auto& p : L.e) mx = std::max(mx, std::max(p.first, p.second));
  for (int i = 0; i <= mx; i++) { m.vgid.push_back(i); m.vw.push_back(1); }
  m.xyz.resize(m.nv()); int k = 0; for (auto& p : L.e) { MEdge e; e.id = k++; e.w = 1; e.pins = {p.first, p.second}; m.e[0].push_back(e); }
  m.unitVW = m.unitEW[0] = true; m.index(); return m;
}
static double idTag(Ngraph* g, GraphVertex* v) { return (double)g->globalID(v) * 3 + 1; }
static void run(Rng& r) {
  bool big = C.caseIdx % 50 == 37;         // counts beyond 16 bits
  List L = genList(r, big); Model m = modelOf(L); int n = m.nv();
  bool part = r.chance(0.6); int pk = r.below(6); Owners own(n, 0);
  Owners pr = genOwners(r, m, C.np, pk);
  std::string f = scratch() + strf("/e%d.ebin", C.caseIdx), pf = scratch() + strf("/p%d.txt", C.caseIdx);
  bool nl = r.chance(0.8), log = r.chance(0.15);
  if (log) { f = scratch() + "/" + std::string(180 + r.below(60), 'e') + strf("%d.ebin", C.caseIdx); }
  caseInfo("%s %s", L.desc.c_str(), part ? ("given " + ownDesc(pr, C.np)).c_str() : "blocks");
  if (!C.rank) {
    FILE* o = fopen(f.c_str(), "wb"); for (auto& p : L.e) { int32_t x[2] = {p.first, p.second}; fwrite(x, 4, 2, o); } fclose(o);
    if (part) { o = fopen(pf.c_str(), "w"); for (int i = 0; i < n; i++) fprintf(o, i + 1 < n || nl ? "%d\n" : "%d", pr[i]); fclose(o); }
  }
  MPI_Barrier(MPI_COMM_WORLD);
  std::vector<char> a(f.begin(), f.end()), b(pf.begin(), pf.end()); a.push_back(0); b.push_back(0);
  if (log) EnGPar_Open_Log();
  Ngraph* g = createBinGraph(a.data(), part ? b.data() : NULL);
  if (log) { EnGPar_Close_Log(); MPI_Barrier(MPI_COMM_WORLD); }
  bool ok = gatherOwners(g, m, own, MPI_COMM_WORLD, "after loading an edge list");
  if (ok) {
    if (part) { for (int i = 0; i < n; i++) if (own[i] != pr[i]) { if (!C.rank) viol("vertex %d is on process %d, the partition file says %d", i, own[i], pr[i]); ok = false; break; } }
    else {
      std::vector<int> sz(C.np, 0); for (int i = 0; i < n; i++) sz[own[i]]++;
      for (int i = 1; i < n; i++) if (own[i] < own[i - 1]) { if (!C.rank) viol("the default distribution is not in blocks: vertex %d on %d, vertex %d on %d", i - 1, own[i - 1], i, own[i]); ok = false; break; }
      for (int x : sz) if (x > n / C.np + 1) { if (!C.rank) viol("a default block has %d of %d vertices on %d processes", x, n, C.np); ok = false; break; }
    }
  }
  CheckOpts co("after loading an edge list"); if (ok) ok = checkDistributed(g, m, own, co);
  note("lists_loaded"); if (big) note("big_lists");
  if (ok && !big && !checkValidity(g)) viol("the loaded graph is called invalid");
  ok = allOk(ok && !C.violsThisCase);
  if (ok) {
    GraphTag* t = g->createDoubleGhostTag(idTag); GhostIterator* gi = g->beginGhosts(); GraphVertex* v;
    while ((v = g->iterate(gi))) { if (g->getDoubleTag(t, v) != (double)g->globalID(v) * 3 + 1) { viol("ghost %ld of a loaded edge list shows another vertex's value", (long)g->globalID(v)); break; } note("ghost_values"); }
    g->destroyTag(t);
  }
  int k = r.below(4), how = r.below(4); bool io = r.chance(0.3), bal = r.chance(0.3); Owners to = genOwners(r, m, C.np); if (big) bal = false;
  if (ok && k) {           // use the loaded graph
    g->setOriginalOwners(); Owners rec = own;
    migrateTo(g, m, to, how); own = to; CheckOpts c2("after migrating a loaded edge list"); ok = checkDistributed(g, m, own, c2);
    if (ok) { PartitionMap* pm = g->getPartition(); for (auto& p : *pm) { int x = m.find(p.first); if (x < 0 || rec[x] != C.rank || p.second != own[x]) { viol("the partition of a loaded edge list maps vertex %lld to %d", (long long)p.first, p.second); break; } }
      long cnt = 0; for (int x : rec) cnt += x == C.rank; if ((long)pm->size() != cnt) viol("the partition of a loaded edge list has %zu entries for %ld vertices", pm->size(), cnt); delete pm; }
    note("migrations");
  }
  ok = allOk(ok && !C.violsThisCase);
  if (ok && io) {
    std::string s = scratch() + strf("/s%d", C.caseIdx); g->saveToFile(s.c_str()); Ngraph* h = createEmptyGraph(); h->loadFromFile(s.c_str());
    CheckOpts c3("after saving and loading a loaded edge list"); checkDistributed(h, m, own, c3); destroyGraph(h); unlink((s + strf("_%d.bgd", C.rank)).c_str()); note("saved");
  }
  if (ok && bal && C.np > 1) {
    engpar::DiffusiveInput* in = engpar::createDiffusiveInput(g, 0.1); in->addPriority(-1, 1.1); in->maxIterations = 5; engpar::balance(in, -1);
    Owners now; if (gatherOwners(g, m, now, MPI_COMM_WORLD, "after balancing a loaded edge list")) { CheckOpts c4("after balancing a loaded edge list"); checkDistributed(g, m, now, c4); } note("balanced");
  }
  destroyGraph(g);
  MPI_Barrier(MPI_COMM_WORLD);
  if (!C.rank) {
    bool thrown = false; unlink(f.c_str()); unlink(pf.c_str()); (void)thrown;
  }
  MPI_Barrier(MPI_COMM_WORLD);
  if (C.caseIdx % 5 == 0) {                 // a file that does not exist is an error on every process
    bool thrown = false; int fd = dup(2); if (!freopen("/dev/null", "w", stderr)) {}
    try { Ngraph* h = createBinGraph(a.data()); destroyGraph(h); } catch (...) { thrown = true; }
    fflush(stderr); dup2(fd, 2); close(fd);
    if (!thrown) viol("a missing edge list is loaded without an error"); else note("missing_reported");
  }
}
MODULE("F02", run, NULL, NULL);
