// G01: a constructed graph is exactly the data the user supplied
#include "model.h"
#include <agiMigration.h>
static void run(Rng& r) {
  GenOpts o; o.maxV = genSize(r, 25, 150, C.tier == "thorough" ? 20000 : 4000); o.minV = std::max(1, o.maxV / 2); bool big = genBig(o);
  if (o.maxV > 1000) { o.maxT = 2; }
  Model m = genModel(r, o);
  Owners own = genOwners(r, m, C.np);
  Build b = genBuild(r);
  caseInfo("%s %s path=%d def=%d%d", m.desc.c_str(), ownDesc(own, C.np).c_str(), b.path, b.defVW, b.defEW);
  agi::Ngraph* g = build(m, own, b);
  CheckOpts co("construct"); co.order = true;
  checkDistributed(g, m, own, co);
  int again = r.below(3); if (big) again = std::min(again, 1);
  for (int k = 0; k < again; k++) {          // other paths, and construction over an existing graph
    Build b2 = genBuild(r); b2.path = (b.path + 1 + k) % B_NPATH;
    int what = r.below(4);
    if (what < 2) {
      agi::Ngraph* h = build(m, own, b2);
      co.when = "other construction path"; checkDistributed(h, m, own, co);
      agi::destroyGraph(h);
    } else if (what == 2) {                  // an old graph with second adjacencies, tags and original owners is replaced
      GenOpts o2; o2.maxV = genSize(r, 20, 60, 200);
      Model m2 = genModel(r, o2); Owners own2 = genOwners(r, m2, C.np);
      if (r.chance(0.5)) g->setOriginalOwners();
      if (r.chance(0.3)) for (int t = 0; t < m.nt; t++) { g->create_vev_adjacency(t, r.chance(0.5)); g->create_eve_adjacency(t, r.chance(0.5)); }
      bool planned = r.chance(0.5);
      if (planned) {                         // its weight plan does not describe the new graph
        agi::WeightMigration* wp = new agi::WeightMigration(g);
        agi::VertexIterator* vi = g->begin(); agi::GraphVertex* v;
        while ((v = g->iterate(vi))) {
          agi::GraphIterator* gi = g->adjacent(v, 0); agi::GraphVertex* u;
          while ((u = g->iterate(gi))) if (u != v && g->weight(v) > 0) { wp->insert(v, u, g->weight(v) / 2); break; }
          g->destroy(gi);
        }
        g->migrate(wp);
      }
      g = build(m2, own2, b2, g);
      if (!g->getWeightPartition()->empty()) viol("after construction over an existing graph the weight plan still has %zu entries", g->getWeightPartition()->size());
      co.when = "construction over an existing graph"; checkDistributed(g, m2, own2, co);
      g->setOriginalOwners();
      agi::PartitionMap* pm = g->getPartition();
      size_t nl = 0; for (int x : own2) nl += x == C.rank;
      if (pm->size() != nl) viol("after construction over an existing graph the partition map has %zu entries for %zu vertices", pm->size(), nl);
      for (auto& p : *pm) if (p.second != C.rank || m2.find(p.first) < 0) { viol("after construction over an existing graph the partition map still has old entries"); break; }
      delete pm;
      note("rebuilds");
      m = m2; own = own2;
    } else {                                  // explicit setters
      std::vector<agi::wgt_t> w(g->numLocalVtxs() + 1);
      agi::VertexIterator* it = g->begin(); agi::GraphVertex* v;
      for (int i = 0; i < m.nv(); i++) m.vw[i] = 1 + (i * 7 % 11) * 0.5;
      while ((v = g->iterate(it))) w[g->localID(v)] = m.vw[m.find(g->globalID(v))];
      g->setWeights(w.data());
      int t = r.below(m.nt); double ew = 0.5 + r.below(9);
      g->setEdgeWeights(ew, t);
      for (auto& e : m.e[t]) e.w = ew;
      m.unitVW = m.unitEW[t] = false;
      if (r.chance(0.5)) { m.coords = true;
        for (int i = 0; i < m.nv(); i++) for (int c = 0; c < 3; c++) m.xyz[i][c] = i * 3.5 - c;
        std::vector<std::array<double, 3> > cs(g->numLocalVtxs() + 1);
        it = g->begin(); while ((v = g->iterate(it))) cs[g->localID(v)] = m.xyz[m.find(g->globalID(v))];
        g->setCoords(reinterpret_cast<agi::coord_t*>(cs.data())); }
      co.when = "after the weight and coordinate setters"; co.ghostW = false; checkDistributed(g, m, own, co); co.ghostW = true;
      note("setters");
    }
  }
  agi::destroyGraph(g);
  if (m.nv() < 2) trivialCase();
}
MODULE("G01", run, NULL, NULL);
