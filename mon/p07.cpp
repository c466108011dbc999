// P07: the C interface does what the C++ interface does (half of the calls go through the Fortran interface)
#include "work.h"
#include <cengpar.h>
#include <parmetis.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace agi;

extern "C" {
ngraph f_createEmptyGraph(); void f_setftncommunicator(int); engparInput f_createLocalSplitInput(ngraph, int, int, bool, int, double, part_t*, int);
engparInput f_createGlobalSplitInput(ngraph, int, int, bool, double, int); engparInput f_createDiffusiveInput(ngraph, double);
void f_setCutGrowthFactor(engparInput, double); void f_addPriority(engparInput, int, double); void f_balanceGhosts(engparInput, bool); void f_balance(engparInput, int);
void f_loadFromFile(ngraph, const char*); void f_saveToFile(ngraph, const char*); void f_evaluatePartition(ngraph); void f_split(engparInput, const char*); void f_destroyGraph(ngraph);
void f_constructVerts(ngraph, bool, gidt*, wgt_t*, int); int f_constructEdges(ngraph, gidt*, lid_t*, wgt_t*, gidt*, int, int); void f_constructGhosts(ngraph, gidt*, part_t*, int);
void f_checkValidity(ngraph); void f_getPartition(ngraph, gidt*, part_t*, int);
}
static bool F; static Rng* FR;
#define CALL(name) (F = FR->chance(0.5), note(F ? "fortran_calls" : "c_calls"), F ? f_##name : cengpar_##name)

// what the graph partitioner is given, as one number; answered with the same random parts
static bool spy; static uint64_t seen; static long spied;
extern "C" int __real_ParMETIS_V3_PartKway(idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, real_t*, real_t*, idx_t*, idx_t*, idx_t*, MPI_Comm*);
extern "C" int __wrap_ParMETIS_V3_PartKway(idx_t* vd, idx_t* xadj, idx_t* adj, idx_t* vw, idx_t* ew, idx_t* wf, idx_t* nf, idx_t* nc, idx_t* np, real_t* tp, real_t* ub, idx_t* opt, idx_t* cut, idx_t* part, MPI_Comm* comm) {
  if (!spy) return __real_ParMETIS_V3_PartKway(vd, xadj, adj, vw, ew, wf, nf, nc, np, tp, ub, opt, cut, part, comm);
  int cs, cr; MPI_Comm_size(*comm, &cs); MPI_Comm_rank(*comm, &cr); long n = vd[cr + 1] - vd[cr];
  uint64_t h = hashBytes(vd, sizeof(idx_t) * (cs + 1)); h = hashBytes(xadj, sizeof(idx_t) * (n + 1), h);
  for (long i = 0; i < n; i++) { uint64_t s = 0; for (idx_t k = xadj[i]; k < xadj[i + 1]; k++) s += mix(adj[k], ew[k]); h = mix(h, s); }
  h = hashBytes(vw, sizeof(idx_t) * n, h); h = mix(h, *np); h = hashBytes(ub, sizeof(real_t), h);
  seen = mix(seen, h); spied++;
  Rng q(mix(C.caseSeed, 900 + C.rank)); for (long i = 0; i < n; i++) part[i] = q.below((int)*np);
  *cut = 0; return METIS_OK;
}

struct Arrays { std::vector<gidt> v; std::vector<wgt_t> w; struct E { std::vector<gidt> id, pin; std::vector<lid_t> deg; std::vector<wgt_t> w; }; std::vector<E> e; std::vector<gidt> gv; std::vector<part_t> go; };
static Arrays arrays(const Model& m, const Owners& own, uint64_t seed) {
  Arrays A; int me = self(); Rng lr(mix(seed, me)); std::vector<int> loc; for (int i = 0; i < m.nv(); i++) if (own[i] == me) loc.push_back(i);
  lr.shuffle(loc); for (int i : loc) { A.v.push_back(m.vgid[i]); A.w.push_back(m.vw[i]); }
  A.e.resize(m.nt); std::map<gidt, int> gh;
  for (int t = 0; t < m.nt; t++) { std::vector<int> h = heldEdges(m, own, t, me); lr.shuffle(h);
    for (int i : h) { const MEdge& e = m.e[t][i]; A.e[t].id.push_back(e.id); A.e[t].deg.push_back((lid_t)e.pins.size()); A.e[t].w.push_back(e.w); for (int p : e.pins) { A.e[t].pin.push_back(m.vgid[p]); if (own[p] != me) gh[m.vgid[p]] = own[p]; } } }
  for (auto& g : gh) { A.gv.push_back(g.first); A.go.push_back(g.second); }
  return A;
}
template <class T> static T* ptr(std::vector<T>& v) { v.reserve(v.size() + 1); return v.data(); }
static ngraph buildC(const Model& m, Arrays A) {
  ngraph g = CALL(createEmptyGraph)();
  CALL(constructVerts)(g, m.hyper, ptr(A.v), ptr(A.w), (int)A.v.size());
  for (int t = 0; t < m.nt; t++) { auto& e = A.e[t]; int k = CALL(constructEdges)(g, ptr(e.id), ptr(e.deg), ptr(e.w), ptr(e.pin), (int)e.id.size(), (int)e.pin.size()); if (k != t) viol("the C interface returns edge type %d for the %d-th type", k, t); }
  CALL(constructGhosts)(g, ptr(A.gv), ptr(A.go), (int)A.gv.size());
  return g;
}
static Ngraph* buildX(const Model& m, Arrays A) {
  Ngraph* g = createEmptyGraph(); g->constructVerts(m.hyper, A.v, A.w);
  for (int t = 0; t < m.nt; t++) g->constructEdges(A.e[t].id, A.e[t].deg, A.e[t].pin, A.e[t].w);
  std::unordered_map<gidt, part_t> o; for (size_t i = 0; i < A.gv.size(); i++) o[A.gv[i]] = A.go[i];
  g->constructGhosts(o); return g;
}
static void judgePart(ngraph g, const Model& m, const Owners& rec, const Owners& own, const char* when) {
  int n = 0; for (int i = 0; i < m.nv(); i++) n += rec[i] == self();
  std::vector<gidt> v(n + 16, -99); std::vector<part_t> p(n + 16, -99);
  CALL(getPartition)(g, &v[8], &p[8], n);
  for (int i = 0; i < 8; i++) if (v[i] != -99 || v[n + 8 + i] != -99 || p[i] != -99 || p[n + 8 + i] != -99) { viol("%s the returned partition is written beyond the caller's arrays", when); return; }
  std::set<int> got;
  for (int i = 8; i < n + 8; i++) { int x = m.find(v[i]);
    if (x < 0 || rec[x] != self()) { viol("%s the returned partition names vertex %lld, which this process did not own", when, (long long)v[i]); return; }
    if (!got.insert(x).second) { viol("%s the returned partition names vertex %lld twice", when, (long long)v[i]); return; }
    if (p[i] != own[x]) { viol("%s the returned partition says vertex %lld is on %d, it is on %d", when, (long long)v[i], p[i], own[x]); return; } }
  note("maps_judged"); note("map_entries", n);
}
static bool same(Ngraph* a, Ngraph* b, const Model& m, const char* what, Owners& own) {
  Owners o2; bool ok = gatherOwners(a, m, own, PCU_Get_Comm(), what) && gatherOwners(b, m, o2, PCU_Get_Comm(), what);
  if (ok) for (int i = 0; i < m.nv(); i++) if (own[i] != o2[i]) { if (!self()) viol("%s through the C interface puts vertex %lld on %d, the same C++ calls put it on %d", what, (long long)m.vgid[i], own[i], o2[i]); ok = false; break; }
  if (ok && localDigest(a) != localDigest(b)) { viol("%s through the C interface gives another graph than the same C++ calls", what); ok = false; }
  return ok;
}
static void run(Rng& r) {
  GenOpts o; o.maxV = genSize(r, 40, 120, 400); o.minV = std::max(C.np * 3, o.maxV / 3); if (o.maxV < o.minV) o.maxV = o.minV; o.zeroDeg = false; o.coords = 0;
  bool sp = r.chance(0.4); if (sp) { o.weights = 1; o.sym = 1; }
  bool io = r.chance(0.4); if (io) o.ids = 1;       // graph files hold 32-bit ids
  Model m = genModel(r, o); Rng fr(mix(C.caseSeed, 4242)); FR = &fr;
  uint64_t as = r.next();
  if (sp) {
    bool local = r.chance(0.5), scattered = r.chance(0.6); int k = r.range(1, C.np), factor = r.range(1, C.np), et = r.below(m.nt); double tol = 1.01 + 0.01 * r.below(20);
    Groups G = local ? makeGroups(r, 0, scattered, factor) : makeGroups(r, k, scattered);
    Owners own = genOwners(r, m, G.k, 5);
    caseInfo("split%s %d->%d et=%d tol=%.2f %s %s", local ? " local" : "", G.k, C.np, et, tol, m.desc.c_str(), ownDesc(own, G.k).c_str());
    std::vector<int> others(std::max(1, G.factor), 0); if (local && G.orig) others = G.parts[std::find(G.world.begin(), G.world.end(), C.rank) - G.world.begin()];
    CALL(setftncommunicator)(MPI_Comm_c2f(G.small));
    int ss; MPI_Comm_size(G.small, &ss); if (PCU_Comm_Peers() != ss) viol("after setting the communicator the library sees %d processes, it has %d", PCU_Comm_Peers(), ss);
    ngraph gc; Ngraph* gx; Arrays A;
    if (G.orig) { A = arrays(m, own, as); gc = buildC(m, A); gx = buildX(m, A); CheckOpts co("built through the C interface"); co.comm = G.small; checkDistributed((Ngraph*)gc, m, own, co); }
    else { gc = CALL(createEmptyGraph)(); gx = createEmptyGraph(); }
    bool ok = allOk(C.violsThisCase == 0);
    uint64_t h[2] = {0, 0}; long n[2] = {0, 0}; Owners now;
    if (ok) {
      int fs = MPI_Comm_c2f(G.small), fl = MPI_Comm_c2f(G.large);
      spy = true; seen = 1; spied = 0;
      engparInput in = local ? CALL(createLocalSplitInput)(gc, fs, fl, G.orig, factor, tol, &others[0], et) : CALL(createGlobalSplitInput)(gc, fs, fl, G.orig, tol, et);
      CALL(split)(in, local ? "LOCAL_PARMETIS" : "GLOBAL_PARMETIS");
      h[0] = seen; n[0] = spied; seen = 1; spied = 0;
      engpar::SplitInput* ix = local ? engpar::createLocalSplitInput(gx, G.small, G.large, G.orig, factor, tol, &others[0], et) : engpar::createGlobalSplitInput(gx, G.small, G.large, G.orig, tol, et);
      engpar::split(ix, local ? engpar::LOCAL_PARMETIS : engpar::GLOBAL_PARMETIS);
      h[1] = seen; n[1] = spied; spy = false;
      if (h[0] != h[1] || n[0] != n[1]) viol("a split through the C interface asks the partitioner something else than the same C++ calls");
      same((Ngraph*)gc, gx, m, "a split", now);
      ok = allOk(C.violsThisCase == 0);
      if (ok) { Owners rec = own; for (int& x : rec) x = G.world[x]; judgePart(gc, m, rec, now, "after a split"); CheckOpts co("after a split through the C interface"); checkDistributed((Ngraph*)gc, m, now, co); }
      if (!C.rank) note("splits_compared");
    }
    CALL(destroyGraph)(gc); destroyGraph(gx);
    CALL(setftncommunicator)(MPI_Comm_c2f(MPI_COMM_WORLD)); freeGroups(G);
    return;
  }
  // on all processes, or on two groups that work at the same time
  bool two = r.chance(0.25) && C.np > 1; int cutAt = r.range(1, std::max(1, C.np - 1)); MPI_Comm c = MPI_COMM_WORLD; int grp = 0;
  if (two) { grp = C.rank >= cutAt; MPI_Comm_split(MPI_COMM_WORLD, grp, C.rank, &c); CALL(setftncommunicator)(MPI_Comm_c2f(c)); }
  int np = two ? (grp ? C.np - cutAt : cutAt) : C.np;
  Owners own = genOwners(r, m, two ? 1 << 20 : np); if (two) for (int& x : own) x %= np;
  DOpts d = genDiffusive(r, m); d.verbosity = -1;
  caseInfo("%s %s%s %s", m.desc.c_str(), two ? "" : ownDesc(own, np).c_str(), two ? strf("two groups %d+%d", cutAt, C.np - cutAt).c_str() : "", d.desc().c_str());
  Arrays A = arrays(m, own, as); ngraph gc = buildC(m, A); Ngraph* gx = buildX(m, A); Ngraph* g1 = (Ngraph*)gc;
  CheckOpts co("built through the C interface"); co.comm = c; bool ok = checkDistributed(g1, m, own, co);
  ok = allOk(ok, c);
  Owners rec = own;
  bool bal = r.chance(0.7), ev = r.chance(0.4), mig = r.chance(0.4), usegr = r.chance(0.5); Owners to = genOwners(r, m, two ? 1 << 20 : np); if (two) for (int& x : to) x %= np; int how = r.below(4);
  if (ok && io) {
    std::string f = scratch() + strf("/g%d_%d", C.caseIdx, grp); CALL(saveToFile)(gc, f.c_str());
    ngraph g2 = CALL(createEmptyGraph)(); CALL(loadFromFile)(g2, f.c_str());
    CheckOpts c2("saved and loaded through the C interface"); c2.comm = c; checkDistributed((Ngraph*)g2, m, own, c2);
    CALL(destroyGraph)(g2); MPI_Barrier(c); unlink((f + strf("_%d.bgd", self())).c_str()); note("files");
  }
  bool rech = false;
  if (ok && mig) { migrateTo(g1, m, to, how); migrateTo(gx, m, to, how); own = to; judgePart(gc, m, rec, own, "after a repartition"); rech = true; }
  if (ok && bal) {
    engparInput in = CALL(createDiffusiveInput)(gc, d.step); engpar::DiffusiveInput* ix = engpar::createDiffusiveInput(gx, d.step);
    for (size_t i = 0; i < d.prio.size(); i++) { double t = i < d.tol.size() ? d.tol[i] : 1.07; CALL(addPriority)(in, d.prio[i], t); ix->addPriority(d.prio[i], t); }
    ((engpar::DiffusiveInput*)in)->maxIterations = ix->maxIterations = std::min(d.maxIter, 15);
    if (d.twice) CALL(balanceGhosts)(in, !d.ghosts);
    CALL(balanceGhosts)(in, d.ghosts); ix->balanceGhosts(d.ghosts);
    if (usegr) { CALL(setCutGrowthFactor)(in, d.growth); ix->limitEdgeCutGrowth = d.growth; }
    { engpar::DiffusiveInput* i1 = (engpar::DiffusiveInput*)in; const char* w = NULL; engpar::DiffusiveInput* fresh = engpar::createDiffusiveInput(gx, d.step);     // what was asked for has arrived
#define SAME(f) if (!(i1->f == ix->f)) w = #f
      SAME(priorities); SAME(tolerances); SAME(step_factor); SAME(limitEdgeCutGrowth); SAME(countGhosts); SAME(maxIterationsPerType); SAME(sides_edge_type); SAME(useDistanceQueue); SAME(bfsPush); SAME(minConnectivity); SAME(connectivityType); SAME(runPartWeightBalancer);
#undef SAME
      if (w) viol("through the C interface the balancer is given another %s", w);
      if (fresh->maxIterations != 1000 || fresh->maxIterationsPerType != 100 || fresh->sides_edge_type != 0 || fresh->runPartWeightBalancer || fresh->limitEdgeCutGrowth != 0 || fresh->countGhosts || fresh->minConnectivity != 1 || fresh->step_factor != d.step) viol("what nothing is said about has not the documented value");
      delete fresh; note("settings_compared"); }
    CALL(balance)(in, -1); engpar::balance(ix, -1);
    Owners now; if (same(g1, gx, m, "balancing", now)) { if (np > 1 || rech) judgePart(gc, m, rec, now, "after balancing"); own = now; }
    if (!self()) note("balances_compared");
  }
  if (ok && ev) {
    captureStdout(); CALL(evaluatePartition)(gc); std::string a = releaseStdout();
    captureStdout(); engpar::evaluatePartition(gx); std::string b = releaseStdout();
    if (a != b || (!self() && a.empty())) viol("evaluating the partition through the C interface prints something else");
    note("evaluations_compared");
  }
  CALL(checkValidity)(gc);
  CALL(destroyGraph)(gc); destroyGraph(gx);
  if (two) { CALL(setftncommunicator)(MPI_Comm_c2f(MPI_COMM_WORLD)); MPI_Comm_free(&c); }
}
MODULE("P07", run, NULL, NULL);
