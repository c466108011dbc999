// M03: the partition map leads from the owners on record to the present ones
#include "work.h"
using namespace agi;
static void judge(Ngraph* g, const Model& m, const Owners& rec, const Owners& own, const char* when) {
  PartitionMap* pm = g->getPartition();
  size_t n = 0; int me = self();
  for (int i = 0; i < m.nv(); i++) if (rec[i] == me) {
    n++; auto it = pm->find(m.vgid[i]);
    if (it == pm->end()) { viol("%s the partition has no entry for vertex %lld, which this process owned", when, (long long)m.vgid[i]); break; }
    if (it->second != own[i]) { viol("%s the partition says vertex %lld is on %d, it is on %d", when, (long long)m.vgid[i], it->second, own[i]); break; }
  }
  if (pm->size() != n) viol("%s the partition has %zu entries, this process owned %zu vertices when ownership was recorded", when, pm->size(), n);
  note("maps_judged"); note("map_entries", (long)n);
  delete pm;
}
static void run(Rng& r) {
  GenOpts o; o.maxV = genSize(r, 30, 90, 300); o.minV = std::max(4, o.maxV / 3); o.maxT = 4; o.zeroDeg = false;
  bool sp = C.np > 1 && r.chance(0.35);
  if (sp) { o.ids = 1; o.topo = T_GRIDN; o.sym = 1; o.selfLoops = false; o.weights = 1; o.minV = std::max(o.minV, 4 * C.np); o.maxV = std::max(o.maxV, o.minV); }
  if (C.np <= 2) genBig(o, 100);
  Model m = genModel(r, o);
  bool local = r.chance(0.4);
  Groups G; std::string hist; Owners own, rec; bool have = false;
  int where = C.np; Ngraph* g;
  if (sp) {
    G = local ? makeGroups(r, 0, r.chance(0.6), r.range(2, std::min(3, C.np))) : makeGroups(r, r.range(1, C.np - 1), r.chance(0.6));
    where = G.k; PCU_Switch_Comm(G.small);
    own = genOwners(r, m, where, m.nv() >= 3 * where ? 5 : 1);
  } else own = genOwners(r, m, where);
  caseInfo("%s %s%s", m.desc.c_str(), ownDesc(own, where).c_str(), sp ? strf(" split of %d%s", G.k, local ? " local" : "").c_str() : "");
  bool in = !sp || G.orig;
  Build bb = genBuild(r);
  if (in) g = build(m, own, bb); else g = createEmptyGraph();
  int steps = r.range(2, C.tier == "quick" ? 6 : 12), splitAt = sp ? r.below(3) : -1;
  bool moved = false;
  for (int k = 0; k < steps; k++) {
    std::string when;
    int what = r.below(12);
    if (k == splitAt) {
      bool zol = !local && r.chance(0.4);
      engpar::SplitInput* si; std::vector<int> others;
      int method = 0;
      if (local) { if (G.orig) others = G.parts[std::find(G.world.begin(), G.world.end(), C.rank) - G.world.begin()]; else others.assign(G.factor, 0);
        si = engpar::createLocalSplitInput(g, G.small, G.large, G.orig, G.factor, 1.1, &others[0], 0); method = 1; }
      else { si = engpar::createGlobalSplitInput(g, G.small, G.large, G.orig, 1.1, 0); method = zol ? 2 : 0; }
      engpar::split(si, method == 0 ? engpar::GLOBAL_PARMETIS : method == 1 ? engpar::LOCAL_PARMETIS : engpar::ZOLTAN_PHG);
      in = true; where = C.np;
      for (int& x : own) x = G.world[x];
      if (have) for (int& x : rec) x = G.world[x]; else { rec = own; have = true; }
      hist += strf(" split%d", method); when = "after" + hist;
      if (!gatherOwners(g, m, own, MPI_COMM_WORLD, when.c_str())) break;
      moved = true; if (C.rank == 0) note("splits");
    } else if (what < 5) {
      Owners to = genOwners(r, m, where); int how = r.below(4);
      if (k < splitAt) to = genOwners(r, m, where, 5);       // keep every part non-empty before the split
      if (in) migrateTo(g, m, to, how);
      if (!have) { rec = own; have = true; }
      moved = moved || to != own; own = to; hist += " migrate"; if (C.rank == 0) note("migrations");
    } else if (what < 8) {
      DOpts d = genDiffusive(r, m); d.verbosity = -1; d.maxIter = std::min(d.maxIter, 8);
      if (k < splitAt) continue;
      engpar::balance(d.make(g), -1);
      if (!have && where > 1) { rec = own; have = true; }
      hist += " balance"; when = "after" + hist; Owners b = own;
      if (!gatherOwners(g, m, own, MPI_COMM_WORLD, when.c_str())) break;
      moved = moved || b != own; if (C.rank == 0) note("balances");
    } else if (what < 9) { if (in) g->resetOwnership(); rec = own; have = true; hist += " resetOwnership"; }
    else if (what < 10) { if (in) g->resetPartition(); rec = own; have = true; hist += " resetPartition"; }
    else if (what < 11) { if (in) g->setOriginalOwners(); if (!have) { rec = own; have = true; } hist += " setOriginalOwners"; }
    else if (k > splitAt) {        // building again forgets what was recorded
      own = genOwners(r, m, where); Build b2 = genBuild(r); build(m, own, b2, g); have = false; hist += " rebuild";
    }
    when = "after" + hist;
    if (have && in) judge(g, m, rec, own, when.c_str());
    bool again = r.chance(0.3);
    if (have && in && again) judge(g, m, rec, own, when.c_str());
    if (!allOk(C.violsThisCase == 0)) break;
  }
  destroyGraph(g);
  if (sp) { PCU_Switch_Comm(MPI_COMM_WORLD); freeGroups(G); }
  if (!moved) trivialCase();
}
MODULE("M03", run, NULL, NULL);
