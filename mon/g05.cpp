// G05: removing an edge type removes that type and nothing else
#include "model.h"
using namespace agi;
static void run(Rng& r) {
  GenOpts o; o.maxV = genSize(r, 25, 80, 400); o.minV = std::max(1, o.maxV / 3); o.maxT = 6; o.minT = r.chance(0.8) ? 2 : 1; o.zeroDeg = r.chance(0.3);
  genBig(o, 100);
  Model m = genModel(r, o);
  Owners own = genOwners(r, m, C.np);
  caseInfo("%s %s", m.desc.c_str(), ownDesc(own, C.np).c_str());
  Ngraph* g = build(m, own, r);
  g->setOriginalOwners();
  Owners orig = own;
  std::set<int> gh = expectedGhosts(m, own, C.rank);
  int ops = r.range(2, 7); std::string hist; int removals = 0;
  for (int k = 0; k < ops; k++) {
    int what = r.below(10);
    CheckOpts co; co.ghosts = &gh; std::string when;
    if (what < 5 && m.nt > 0) {
      int t = r.chance(0.5) ? m.nt - 1 : r.below(m.nt);
      if (r.chance(0.2)) { g->create_vev_adjacency(t); g->create_eve_adjacency(t, r.chance(0.5)); }
      g->removeEdges(t); removals++;
      m.e[t].clear(); hist += strf(" remove%d/%d", t, m.nt);
      int nt = g->numEdgeTypes(), lo, hi;
      PMPI_Allreduce(&nt, &lo, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD); PMPI_Allreduce(&nt, &hi, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
      bool bad = lo != hi || nt > m.nt || nt < 0;
      for (int q = nt; !bad && q < m.nt; q++) bad = !m.e[q].empty();
      if (bad) { viol("after%s the graph has %d edge types (%d..%d over the processes), %d expected", hist.c_str(), nt, lo, hi, m.nt); break; }
      for (int q = nt; q < m.nt; q++) if (g->numLocalEdges(q) || g->numGlobalEdges(q) || g->numLocalPins(q) || g->numGlobalPins(q)) viol("removed type %d still counts edges or pins", q);
      m.nt = nt; when = "after" + hist; note("removals");
    } else if (what < 7) {
      Owners to = genOwners(r, m, C.np);
      migrateTo(g, m, to, r.below(4)); own = to; gh = expectedGhosts(m, own, C.rank); hist += " migrate"; when = "after" + hist; note("migrations");
    } else if (what < 8 && m.nt < 7) {         // one more type
      GenOpts o2; o2.mode = m.hyper; o2.minT = o2.maxT = 1; o2.minV = o2.maxV = m.nv();
      Model x = genModel(r, o2);
      int t = m.nt; m.e[t] = x.e[0]; m.unitEW[t] = x.unitEW[0]; m.nt++;
      std::vector<gidt> ids, pins; std::vector<lid_t> degs; std::vector<wgt_t> w; std::unordered_map<gidt, part_t> owns;
      for (int p : gh) owns[m.vgid[p]] = own[p];
      for (size_t i = 0; i < m.e[t].size(); i++) { const MEdge& e = m.e[t][i];
        bool here = m.hyper ? std::any_of(e.pins.begin(), e.pins.end(), [&](int p) { return own[p] == C.rank; }) : own[e.pins[0]] == C.rank;
        if (e.pins.empty()) here = (int)(mix(i + 1, t + 5) % (uint64_t)C.np) == C.rank;
        if (!here) continue;
        ids.push_back(e.id); degs.push_back((lid_t)e.pins.size()); w.push_back(e.w);
        for (int p : e.pins) { pins.push_back(m.vgid[p]); if (own[p] != C.rank) { owns[m.vgid[p]] = own[p]; gh.insert(p); } } }
      int k2 = g->constructEdges(ids, degs, pins, w);
      if (k2 != t) viol("after%s a new type gets index %d, %d expected", hist.c_str(), k2, t);
      if ((m.nt + k) % 2) g->constructGhosts(owns);
      else { std::vector<gidt> gi; std::vector<part_t> go; for (auto& p : owns) { gi.push_back(p.first); go.push_back(p.second); } gi.reserve(1); go.reserve(1); g->constructGhosts((lid_t)gi.size(), gi.data(), go.data()); }
      hist += " add"; when = "after" + hist; note("types_added");
    } else if (what < 9) {
      if (!checkValidity(g)) viol("after%s the validity check fails", hist.c_str());
      continue;
    } else {
      PartitionMap* pm = g->getPartition(); size_t n = 0;
      for (int i = 0; i < m.nv(); i++) if (orig[i] == C.rank) { n++; auto it = pm->find(m.vgid[i]); if (it == pm->end() || it->second != own[i]) { viol("after%s the partition map is wrong for vertex %lld", hist.c_str(), (long long)m.vgid[i]); break; } }
      if (pm->size() != n) viol("after%s the partition map has %zu entries, %zu expected", hist.c_str(), pm->size(), n);
      delete pm; continue;
    }
    co.when = when.c_str();
    if (!checkDistributed(g, m, own, co)) break;
    for (int t = 0; t < m.nt; t++) if (m.e[t].empty()) {       // an empty type can be walked in every way
      EdgeIterator* ei = g->begin(t); if (g->iterate(ei)) viol("%s: an empty type has an edge", co.when); g->destroy(ei);
      g->create_vev_adjacency(t, r.chance(0.5)); g->create_eve_adjacency(t); g->setEdgeWeights(2.0, t);
    }
  }
  if (!checkValidity(g)) viol("after%s the validity check fails", hist.c_str());
  destroyGraph(g);
  if (!removals) trivialCase();
}
MODULE("G05", run, NULL, NULL);
