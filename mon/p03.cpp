// P03: a split distributes the same graph over the larger group
#include "work.h"
#include <stdexcept>
using namespace agi;

static engpar::SplitInput* input(Ngraph* g, const Groups& G, MPI_Comm small, MPI_Comm large, bool orig, bool local, double tol, int et, std::vector<int>& others) {
  if (!local) return engpar::createGlobalSplitInput(g, small, large, orig, tol, et);
  others.assign(G.factor, 0);
  if (orig) others = G.parts[std::find(G.world.begin(), G.world.end(), C.rank) - G.world.begin()];
  return engpar::createLocalSplitInput(g, small, large, orig, G.factor, tol, &others[0], et);
}
static const char* mname[] = {"global", "local", "zoltan"};
static engpar::SPLIT_METHOD meth(int k) { return k == 0 ? engpar::GLOBAL_PARMETIS : k == 1 ? engpar::LOCAL_PARMETIS : engpar::ZOLTAN_PHG; }

static void judgeMap(Ngraph* g, const Model& m, const Owners& rec, const Owners& own) {
  PartitionMap* pm = g->getPartition(); size_t n = 0;
  for (int i = 0; i < m.nv(); i++) if (rec[i] == C.rank) {
    n++; auto it = pm->find(m.vgid[i]);
    if (it == pm->end()) { viol("after the split the partition has no entry for vertex %lld", (long long)m.vgid[i]); break; }
    if (it->second != own[i]) { viol("after the split the partition says vertex %lld is on %d, it is on %d", (long long)m.vgid[i], it->second, own[i]); break; }
  }
  if (pm->size() != n) viol("after the split the partition has %zu entries, this process owned %zu vertices", pm->size(), n);
  delete pm;
}

static GenOpts opts(Rng& r, int method, int k) {
  GenOpts o; o.maxV = genSize(r, 40, 150, 600); o.minV = std::max(4 * k, o.maxV / 2); if (o.maxV < o.minV) o.maxV = o.minV;
  o.maxT = 4; o.zeroDeg = false; o.sym = 1; o.weights = 1; o.ids = method == 2 ? (r.chance(0.5) ? 0 : 1) : -1;
  if (r.chance(0.5)) o.topo = r.chance(0.5) ? T_GRIDN : T_GRIDS;
  if (method == 2) { o.selfLoops = r.chance(0.3); }
  return o;
}

static void once(Rng& r) {
  int method = r.below(3); bool local = method == 1;
  bool scattered = r.chance(0.6); int k = r.range(1, C.np); int factor = r.range(1, C.np);
  Groups G = local ? makeGroups(r, 0, scattered, factor) : makeGroups(r, k, scattered);
  GenOpts o = opts(r, method, G.k);
  bool nice = r.chance(0.4);
  if (nice) { o.topo = r.chance(0.5) ? T_GRIDN : T_GRIDS; o.minV = 60 * C.np; o.maxV = 120 * C.np; o.weights = 0; o.minT = 1; o.maxT = 2; o.coords = 0; }
  Model m = genModel(r, o);
  int et = nice ? 0 : r.below(m.nt); double tol = 1.02 + 0.02 * r.below(10);
  int okind = method == 0 ? (r.chance(0.5) ? 1 : 5) : r.chance(0.5) ? 1 : -1;     // the graph partitioner refuses empty parts (judged in refuse())
  Owners own = genOwners(r, m, G.k, okind);
  if (method == 2) { int n = m.nv(); if (n < G.k) trivialCase(); }
  bool pert = r.chance(0.2), before = r.chance(0.3);
  caseInfo("split %s %d->%d%s et=%d tol=%.2f %s %s%s%s", mname[method], G.k, C.np, scattered ? " scattered" : "", et, tol, m.desc.c_str(), ownDesc(own, G.k).c_str(), before ? " migrated before" : "", pert ? " perturbed" : "");
  Build bb = genBuild(r); Owners mv = genOwners(r, m, G.k, 5); int how = r.below(4);
  PCU_Switch_Comm(G.small);
  Ngraph* g;
  if (pert) perturbStart(C.caseSeed, 0.3, 0.02, 200);
  bool ok = true;
  if (G.orig) {
    g = build(m, own, bb);
    if (before) { migrateTo(g, m, mv, how); g->resetOwnership(); }
  } else g = createEmptyGraph();
  if (before) own = mv;
  std::vector<int> others;
  engpar::split(input(g, G, G.small, G.large, G.orig, local, tol, et, others), meth(method));
  Owners rec = own; for (int& x : rec) x = G.world[x];
  Owners now;
  if (PCU_Comm_Peers() != C.np || PCU_Comm_Self() != C.rank) { viol("after the split the library works on %d processes as %d, the larger group has %d, this is %d", PCU_Comm_Peers(), PCU_Comm_Self(), C.np, C.rank); ok = false; }
  ok = allOk(ok);
  if (ok) ok = gatherOwners(g, m, now, MPI_COMM_WORLD, "after the split");
  if (ok) {
    if (local) for (int i = 0; i < m.nv(); i++) {
      const std::vector<int>& p = G.parts[own[i]];
      if (std::find(p.begin(), p.end(), now[i]) == p.end()) { if (!C.rank) viol("a local split put vertex %lld of part %d (allotted %d processes) on process %d", (long long)m.vgid[i], own[i], (int)p.size(), now[i]); break; }
    }
    std::set<int> gh = expectedGhosts(m, now, C.rank);
    CheckOpts co("after the split"); co.ghosts = &gh;
    ok = checkDistributed(g, m, now, co);
    judgeMap(g, m, rec, now);
    std::vector<long> c(C.np, 0); for (int x : now) c[x]++;
    long moved = 0; for (int i = 0; i < m.nv(); i++) moved += now[i] != rec[i];
    if (C.rank == 0) { note(strf("splits_%s", mname[method]).c_str()); note("splits"); note("vertices_moved", moved); }
    if (!moved) trivialCase();
    if (nice) {
      double worst = 0; int parts = C.np;
      if (local) {         // each part is divided by itself
        parts = 0;
        for (int q = 0; q < G.k; q++) { long tot = 0, mx = 0; for (int p : G.parts[q]) { tot += c[p]; mx = std::max(mx, c[p]); } if (tot >= 40 * (long)G.factor) { worst = std::max(worst, (double)mx * G.factor / tot); parts++; } }
      } else worst = (double)*std::max_element(c.begin(), c.end()) * C.np / m.nv();
      if (parts && worst > tol + 0.1) { if (!C.rank) viol("a %s split of a grid into %d parts gives imbalance %.3f, requested %.2f", mname[method], C.np, worst, tol); }
      if (C.rank == 0) { note("tolerances_judged"); note("excess_percent", (long)(100 * std::max(0.0, worst - tol))); if (worst > tol + 0.1) note("excess_over_10"); }
    }
  }
  if (ok && r.chance(0.5)) {       // the result is a graph like any other
    Owners to = genOwners(r, m, C.np); migrateTo(g, m, to, r.below(4));
    CheckOpts co("after a migration of the split graph"); ok = checkDistributed(g, m, to, co);
    judgeMap(g, m, rec, to);
    if (!checkValidity(g)) viol("the validity check fails on the split graph");
    note("used_after");
  }
  perturbStop();
  destroyGraph(g);
  PCU_Switch_Comm(MPI_COMM_WORLD); freeGroups(G);
}

// a graph on one process is split to a few, then to all
static void twice(Rng& r) {
  int n1 = r.range(1, C.np), n2 = r.range(n1, C.np), m1 = r.chance(0.5) ? 0 : 2, m2 = r.chance(0.5) ? 0 : 2;
  GenOpts o = opts(r, 2, 1); o.topo = r.chance(0.5) ? T_GRIDN : T_GRIDS; o.minV = 25 * C.np; o.maxV = 50 * C.np; o.minT = 1;
  Model m = genModel(r, o);
  std::vector<int> perm(C.np); for (int i = 0; i < C.np; i++) perm[i] = i; r.shuffle(perm);
  int pos = (int)(std::find(perm.begin(), perm.end(), C.rank) - perm.begin());
  caseInfo("split %s %d->%d then %s ->%d %s", mname[m1], n1, n2, mname[m2], C.np, m.desc.c_str());
  MPI_Comm a, b, w;                      // b's order differs from a's
  MPI_Comm_split(MPI_COMM_WORLD, pos < n1 ? 0 : pos < n2 ? 1 : 2, pos, &a);
  MPI_Comm_split(MPI_COMM_WORLD, pos < n2 ? 0 : 1, -pos, &b);
  MPI_Comm_dup(MPI_COMM_WORLD, &w);
  Owners own = genOwners(r, m, n1, 1); Build bb = genBuild(r);
  PCU_Switch_Comm(a);
  Ngraph* g;
  if (pos < n1) g = build(m, own, bb); else g = createEmptyGraph();
  bool ok = true; Owners mid;
  if (pos < n2) {
    engpar::split(engpar::createGlobalSplitInput(g, a, b, pos < n1, 1.1, 0), meth(m1));
    ok = gatherOwners(g, m, mid, b, "after the first split");
    if (ok) { CheckOpts co("after the first split"); co.comm = b; ok = checkDistributed(g, m, mid, co); }
    if (ok) { g->resetOwnership(); }
  }
  ok = allOk(ok);
  if (ok) {
    std::vector<int> c(C.np, 0); for (int x : mid) c[x]++;
    int empty = 0; if (pos < n2) { int q; MPI_Comm_rank(b, &q); empty = c[q] == 0; }
    if (!allOk(!empty)) m2 = 2;         // a part may come out empty; the graph partitioner refuses that
    engpar::split(engpar::createGlobalSplitInput(g, b, w, pos < n2, 1.1, 0), meth(m2));
    Owners now; ok = gatherOwners(g, m, now, MPI_COMM_WORLD, "after the second split");
    if (ok) {
      CheckOpts co("after the second split"); ok = checkDistributed(g, m, now, co);
      int br = -1; if (pos < n2) MPI_Comm_rank(b, &br);
      PartitionMap* pm = g->getPartition(); size_t n = 0;
      if (br >= 0) for (int i = 0; i < m.nv(); i++) if (mid[i] == br) { n++; auto it = pm->find(m.vgid[i]); if (it == pm->end() || it->second != now[i]) { viol("after the second split the partition is wrong for vertex %lld", (long long)m.vgid[i]); break; } }
      if (pm->size() != n) viol("after the second split the partition has %zu entries, %zu vertices were here", pm->size(), n);
      delete pm;
      if (C.rank == 0) { note("splits", 2); note("two_stage"); }
    }
  }
  destroyGraph(g);
  PCU_Switch_Comm(MPI_COMM_WORLD); MPI_Comm_free(&a); MPI_Comm_free(&b); MPI_Comm_free(&w);
}

// the graph partitioner refuses a part without vertices; that must not scramble the graph
static void refuse(Rng& r) {
  GenOpts o = opts(r, 0, 1); Model m = genModel(r, o);
  Owners own = genOwners(r, m, C.np, 1); int e = r.below(C.np); for (int& x : own) if (x == e) x = (e + 1) % C.np;
  caseInfo("refused split %s %s", m.desc.c_str(), ownDesc(own, C.np).c_str());
  if (C.np == 1) { trivialCase(); return; }
  MPI_Comm a, b; MPI_Comm_dup(MPI_COMM_WORLD, &a); MPI_Comm_dup(MPI_COMM_WORLD, &b);
  PCU_Switch_Comm(a);
  Ngraph* g = build(m, own, r);
  engpar::SplitInput* in = engpar::createGlobalSplitInput(g, a, b, true, 1.1, 0);
  bool refused = false;
  try { engpar::split(in, engpar::GLOBAL_PARMETIS); } catch (const std::exception&) { refused = true; }
  bool any = !allOk(!refused), all = allOk(refused);
  if (any != all) viol("the refusal to split is not known to all processes");
  else if (refused) { delete in; PCU_Switch_Comm(MPI_COMM_WORLD); CheckOpts co("after a refused split"); checkDistributed(g, m, own, co); note("refusals"); }
  else { Owners now; if (gatherOwners(g, m, now, MPI_COMM_WORLD, "after splitting with an empty part")) { CheckOpts co("after splitting with an empty part"); checkDistributed(g, m, now, co); } }
  PCU_Switch_Comm(MPI_COMM_WORLD);
  destroyGraph(g); MPI_Comm_free(&a); MPI_Comm_free(&b);
}
static void run(Rng& r) { int k = r.below(20); if (k < 15) once(r); else if (k < 19) twice(r); else refuse(r); }
MODULE("P03", run, NULL, NULL);
