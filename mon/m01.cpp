// M01: a migration sends every vertex where the plan says and changes nothing else
#include "model.h"
#include <agiMigration.h>
#include <agiMigrationTimers.h>
using namespace agi;

// a plan through the Migration interface itself, with its own little model
static void planned(Ngraph* g, const Model& m, Rng& lr, Owners& dest, const Owners& own) {
  g->setOriginalOwners();
  Migration* plan = new Migration(g);
  std::vector<GraphVertex*> vs; VertexIterator* it = g->begin(); GraphVertex* v;
  while ((v = g->iterate(it))) vs.push_back(v);
  std::map<GraphVertex*, int> want;
  int rounds = lr.below(3);
  for (int k = 0; k <= rounds; k++) {
    if (k && lr.chance(0.3)) { plan->clear(); want.clear(); note("plan_clears"); }
    lr.shuffle(vs);
    for (GraphVertex* x : vs) if (lr.chance(0.4)) {
      int d = lr.chance(0.2) ? C.rank : lr.below(C.np);
      bool fresh = plan->insert(std::make_pair(x, d));
      if (fresh != !want.count(x)) viol("inserting a vertex in a plan reports %s", fresh ? "new although it was planned" : "planned although it was new");
      want[x] = d; note("plan_entries");
    }
    if (plan->size() != (int)want.size()) viol("the plan's size is %d, %zu expected", plan->size(), want.size());
    for (GraphVertex* x : vs) {
      if (plan->has(x) != (want.count(x) > 0)) viol("plan.has(vertex) is wrong");
      else if (want.count(x) && plan->get(x) != want[x]) viol("plan.get(vertex) is %d, %d expected", plan->get(x), want[x]);
    }
    std::set<GraphVertex*> seen; size_t n = 0;
    for (Migration::iterator q = plan->begin(); q != plan->end(); ++q) { seen.insert(*q); n++; if (!want.count(*q)) viol("the plan lists a vertex that is not planned"); }
    if (n != want.size() || seen.size() != want.size()) viol("the plan lists %zu vertices (%zu distinct), %zu expected", n, seen.size(), want.size());
  }
  GhostIterator* gi = g->beginGhosts();
  while ((v = g->iterate(gi))) if (plan->has(v)) { viol("a plan has a ghost vertex"); break; }
  // tell everybody
  std::vector<gidt> mine;
  for (auto& p : want) { mine.push_back(g->globalID(p.first)); mine.push_back(p.second); }
  std::vector<gidt> all = allgatherv(mine, MPI_COMM_WORLD);
  dest = own;
  for (size_t i = 0; i + 1 < all.size(); i += 2) { int k = m.find(all[i]); if (k >= 0) dest[k] = (int)all[i + 1]; }
  MigrationTimers* mt = NULL;
  bool timed = mix(C.caseSeed, 5) & 1;
  if (timed) { mt = new MigrationTimers(); mt->addTimer("setup"); mt->addTimer("comm"); mt->addTimer("build"); mt->addTimer("total"); }
  g->migrate(plan, mt);
  delete mt;
}

static void run(Rng& r) {
  GenOpts o; o.maxV = genSize(r, 25, 90, 500); o.minV = std::max(1, o.maxV / 3); o.maxT = 5; bool big = genBig(o);
  Model m = genModel(r, o);
  Owners own = genOwners(r, m, C.np);
  int steps = r.range(1, C.tier == "quick" ? 5 : 12);
  bool pert = r.chance(0.5); if (big) { steps = 1; pert = false; }
  caseInfo("%s %s steps=%d%s", m.desc.c_str(), ownDesc(own, C.np).c_str(), steps, pert ? " perturbed" : "");
  if (pert) perturbStart(C.caseSeed, 0.3, 0.02, 200);
  Build bb = genBuild(r);
  int k0 = C.np > 1 && r.chance(0.2) ? r.range(1, C.np - 1) : C.np;       // built by a few; the others join with an empty graph
  Ngraph* g;
  if (k0 < C.np) {
    for (int& x : own) x %= k0;
    MPI_Comm few; MPI_Comm_split(MPI_COMM_WORLD, C.rank < k0, C.rank, &few);
    PCU_Switch_Comm(few);
    if (C.rank < k0) g = build(m, own, bb); else g = createEmptyGraph();
    PCU_Switch_Comm(MPI_COMM_WORLD);
    MPI_Comm_free(&few);
    if (C.rank == 0) note("joined");
  } else g = build(m, own, bb);
  std::string hist; if (k0 < C.np) hist = strf(" joined(%d)", C.np - k0); bool moved = false;
  for (int k = 0; k < steps; k++) {
    Owners to = genOwners(r, m, C.np);
    if (r.chance(0.3)) { to = own; for (auto& x : to) if (r.chance(0.2)) x = r.below(C.np); }    // few movers
    if (r.chance(0.08)) to = own;                                                          // nobody moves
    int how = r.below(6); Rng lr(mix(r.next(), C.rank + 3));
    if (how < 4) migrateTo(g, m, to, how); else planned(g, m, lr, to, own);
    long mv = 0; for (int i = 0; i < m.nv(); i++) mv += own[i] != to[i];
    moved = moved || mv; if (C.rank == 0) { note("migrations"); note("vertices_moved", mv); }
    own = to; hist += strf(" %d(%ld)", how, mv);
    std::string when = "after migrations" + hist;
    Owners now;
    if (!gatherOwners(g, m, now, MPI_COMM_WORLD, when.c_str())) break;
    bool ok = true;
    for (int i = 0; i < m.nv() && ok; i++) if (now[i] != own[i]) { viol("%s vertex %lld lives on %d, the plan says %d", when.c_str(), (long long)m.vgid[i], now[i], own[i]); ok = false; }
    CheckOpts co(when.c_str()); co.residence = r.chance(0.3);
    if (!checkDistributed(g, m, own, co) || !allOk(ok)) break;

    if (r.chance(0.25)) {       // things that users do between migrations
      g->create_vev_adjacency(r.below(m.nt)); g->create_eve_adjacency(r.below(m.nt), r.chance(0.5));
      GraphTag* t = g->createIntTag(VTX_TYPE); g->destroyTag(t);
    }
  }
  perturbStop();
  destroyGraph(g);
  if (!moved) trivialCase();
}
MODULE("M01", run, NULL, NULL);
