// P01: diffusive balancing moves vertices legally and never changes the graph
#include "work.h"
using namespace agi;
static void run(Rng& r) {
  GenOpts o; int big = r.below(10);
  o.maxV = genSize(r, 60, 200, 900); o.minV = std::max(2, o.maxV / 2); o.maxT = 5;
  if (big < 5) o.topo = r.chance(0.5) ? T_GRIDN : T_GRIDS;
  if (r.chance(0.5)) { o.sym = 1; }
  Model m = genModel(r, o);
  Owners own = genOwners(r, m, C.np, r.chance(0.4) ? 1 : r.chance(0.5) ? 2 : -1);
  int runs = r.range(1, 2);
  DOpts d = genDiffusive(r, m);
  bool pert = r.chance(0.25);
  caseInfo("%s %s %s%s", m.desc.c_str(), ownDesc(own, C.np).c_str(), d.desc().c_str(), pert ? " perturbed" : "");
  if (pert) perturbStart(C.caseSeed, 0.3, 0.02, 200);
  Ngraph* g = build(m, own, r);
  Owners rec = own; bool moved = false;
  if (r.chance(0.2)) { g->setOriginalOwners(); Owners to = genOwners(r, m, C.np); migrateTo(g, m, to, r.below(4)); own = to; }
  for (int k = 0; k < runs; k++) {
    if (k) { d = genDiffusive(r, m); caseInfo("then %s", d.desc().c_str()); }
    Owners pred = own;
    watchSteps(g, &m, &pred);
    bool deep = r.chance(0.15); Owners* pp = &pred; const Model* mm = &m; Ngraph* gg = g;
    if (deep) SM.after = [=] { CheckOpts co("after a balancing step"); co.residence = false; checkDistributed(gg, *mm, *pp, co); note("steps_compared"); };
    engpar::balance(d.make(g), d.verbosity);
    unwatchSteps();
    long lim = C.np == 1 ? 0 : std::min<long>(d.maxIter, (long)d.prio.size() * d.maxPerType);
    if (SM.steps > lim) viol("the balancer made %ld steps, the limits allow %ld", SM.steps, lim);
    if (SM.illegal) viol("%ld illegal moves; %s", SM.illegal, SM.firstBad.c_str());
    if (C.rank == 0) { note("balances"); note("steps", SM.steps); } note("vertices_moved", SM.moved);
    std::string when = "after balancing";
    Owners now;
    if (!gatherOwners(g, m, now, MPI_COMM_WORLD, when.c_str())) break;
    for (int i = 0; i < m.nv(); i++) if (now[i] != pred[i]) { viol("vertex %lld is on %d, the steps' plans lead to %d", (long long)m.vgid[i], now[i], pred[i]); break; }
    moved = moved || now != own; own = now;
    std::set<int> gh = expectedGhosts(m, own, C.rank);
    CheckOpts co(when.c_str()); co.ghosts = &gh;
    if (!checkDistributed(g, m, own, co)) break;
    if (C.np > 1) {
      PartitionMap* pm = g->getPartition(); size_t n = 0;
      for (int i = 0; i < m.nv(); i++) if (rec[i] == C.rank) { n++; auto it = pm->find(m.vgid[i]); if (it == pm->end() || it->second != own[i]) { viol("after balancing the partition is wrong for vertex %lld", (long long)m.vgid[i]); break; } }
      if (pm->size() != n) viol("after balancing the partition has %zu entries, %zu expected", pm->size(), n);
      delete pm;
    }
    if (!checkValidity(g)) viol("after balancing the validity check fails");
    if (!allOk(C.violsThisCase == 0)) break;
  }
  perturbStop();
  destroyGraph(g);
  if (!moved) trivialCase();
}
MODULE("P01", run, NULL, NULL);
