// M02: after migration every process's view of its surroundings is that of a graph constructed there
#include "model.h"
#include <agiMigration.h>
using namespace agi;
static bool sameOrig(Ngraph* g, const Model& m, const Owners& orig, const char* when) {
  VertexIterator* it = g->begin(); GraphVertex* v;
  while ((v = g->iterate(it))) { int k = m.find(g->globalID(v)); if (k < 0) return false;
    if (g->originalOwner(v) != orig[k]) { viol("%s the original owner of vertex %lld is %d, %d recorded", when, (long long)m.vgid[k], g->originalOwner(v), orig[k]); return false; } }
  return true;
}
static void cuts(Ngraph* g, const Model& m, const Owners& own, const char* when) {
  for (int t = 0; t < m.nt; t++) {
    std::map<gidt, int> byId; if (m.hyper) for (size_t i = 0; i < m.e[t].size(); i++) byId[m.e[t][i].id] = (int)i;
    EdgeIterator* ei = g->begin(t); GraphEdge* e; long c = 0;
    while ((e = g->iterate(ei))) {
      std::set<int> res; bool cut = false;
      if (m.hyper) { auto f = byId.find(g->globalID(e)); if (f == byId.end()) continue; for (int p : m.e[t][f->second].pins) { res.insert(own[p]); cut |= own[p] != C.rank; } }
      else { int a = m.find(g->globalID(g->u(e))), b = m.find(g->globalID(g->v(e))); if (a < 0 || b < 0) continue; res.insert(own[a]); res.insert(own[b]); cut = own[b] != C.rank; }
      if (g->isCut(e) != cut) { viol("%s isCut is %d for an edge of type %d, %d expected", when, g->isCut(e), t, cut); break; }
      Peers q; g->getResidence(e, q);
      std::set<int> got(q.begin(), q.end());
      if (got != res) { viol("%s an edge of type %d is resident on %zu parts, %zu expected (or other parts)", when, t, got.size(), res.size()); break; }
      for (int p = 0; p < C.np; p++) if (g->isResidentOn(e, p) != (res.count(p) > 0)) { viol("%s isResidentOn(%d) is wrong for an edge of type %d", when, p, t); break; }
      c += cut;
    }
    g->destroy(ei); note("cut_edges", c);
  }
}
static void run(Rng& r) {
  GenOpts o; o.maxV = genSize(r, 25, 90, 400); o.minV = std::max(1, o.maxV / 3); o.maxT = 5;
  o.zeroDeg = r.chance(0.2);
  bool big = C.np <= 2 && genBig(o, 100);
  Model m = genModel(r, o);
  Owners own = genOwners(r, m, C.np), orig = own; bool haveOrig = false;
  int steps = r.range(1, C.tier == "quick" ? 4 : 10); if (big) steps = 1;
  caseInfo("%s %s steps=%d", m.desc.c_str(), ownDesc(own, C.np).c_str(), steps);
  Ngraph* g = build(m, own, r);
  std::string hist; bool moved = false;
  bool anyZero = false; for (int t = 0; t < m.nt; t++) for (auto& e : m.e[t]) anyZero = anyZero || e.pins.empty();
  for (int k = 0; k < steps; k++) {
    Owners to = genOwners(r, m, C.np);
    if (r.chance(0.4)) { to = own; for (auto& x : to) if (r.chance(0.25)) x = r.below(C.np); }
    int how = r.below(4);
    if (r.chance(0.15)) { g->resetOwnership(); orig = own; haveOrig = true; hist += " reset"; }
    if (!haveOrig) { orig = own; haveOrig = true; }
    migrateTo(g, m, to, how);
    moved = moved || to != own; if (C.rank == 0) note("migrations");
    own = to; hist += strf(" %d", how);
    std::string when = "after" + hist;
    std::set<int> gh = expectedGhosts(m, own, C.rank);
    CheckOpts co(when.c_str()); co.ghosts = &gh;
    bool ok = checkDistributed(g, m, own, co);
    
    if (ok) { ok = sameOrig(g, m, orig, when.c_str()); cuts(g, m, own, when.c_str()); }
    if (ok && !checkValidity(g)) { viol("%s the validity check fails", when.c_str()); ok = false; }
    if (!allOk(ok)) break;
    if (!anyZero) {
      Build b = genBuild(r);
      Ngraph* f = build(m, own, b);
      uint64_t a = localDigest(g), c = localDigest(f);
      if (a != c) viol("%s this process's part differs from that of a graph constructed in the same distribution", when.c_str());
      note("digests_compared");
      destroyGraph(f);
    }
  }
  destroyGraph(g);
  if (!moved) trivialCase();
}
MODULE("M02", run, NULL, NULL);
