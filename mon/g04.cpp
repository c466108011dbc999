// G04: tags are per entity; ghost data equals what the owner reports
#include "model.h"
using namespace agi;
static Ngraph* curG; static int curSalt; static long cbCalls, cbBad;
static int64_t f(gidt gid, int owner, int salt) { return (int64_t)(mix(gid * 7 + salt, owner) >> 2); }
static void cbCheck(Ngraph* g, GraphVertex* v) { cbCalls++; if (g != curG || g->localID(v) < 0 || g->localID(v) >= g->numLocalVtxs() || g->owner(v) != self()) cbBad++; }
static int cbI(Ngraph* g, GraphVertex* v) { cbCheck(g, v); return (int)f(g->globalID(v), self(), curSalt); }
static long cbL(Ngraph* g, GraphVertex* v) { cbCheck(g, v); return (long)f(g->globalID(v), self(), curSalt); }
static double cbD(Ngraph* g, GraphVertex* v) { cbCheck(g, v); return f(g->globalID(v), self(), curSalt) * 0.5; }

struct Tag { GraphTag* t; int type, where; std::map<long, double> shD; std::map<long, long> sh; };   // where: VTX_TYPE or edge type
static void ghostTags(Ngraph* g, const Model& m, const Owners& own, Rng& r) {
  curG = g;
  struct GT { GraphTag* t; int kind, salt; }; std::vector<GT> ts;
  int k = r.range(1, 4);
  for (int i = 0; i < k; i++) {
    GT x; x.kind = r.below(3); x.salt = curSalt = r.below(1000000); cbCalls = cbBad = 0;
    x.t = x.kind == 0 ? g->createIntGhostTag(cbI) : x.kind == 1 ? g->createLongGhostTag(cbL) : g->createDoubleGhostTag(cbD);
    if (cbBad) viol("the ghost tag callback was called for a vertex the process does not own");
    long gh = g->numGhostVtxs(), all, calls; PMPI_Allreduce(&gh, &all, 1, MPI_LONG, MPI_SUM, MPI_COMM_WORLD); PMPI_Allreduce(&cbCalls, &calls, 1, MPI_LONG, MPI_SUM, MPI_COMM_WORLD);
    if (calls == 0 && all) viol("no owner was asked for ghost data");
    ts.push_back(x);
  }
  for (auto& x : ts) {
    GhostIterator* it = g->beginGhosts(); GraphVertex* v;
    while ((v = g->iterate(it))) {
      int ix = m.find(g->globalID(v)); int64_t e = f(g->globalID(v), own[ix], x.salt);
      bool ok = x.kind == 0 ? g->getIntTag(x.t, v) == (int)e : x.kind == 1 ? g->getLongTag(x.t, v) == (long)e : g->getDoubleTag(x.t, v) == e * 0.5;
      if (!ok) { viol("ghost tag (kind %d) of ghost %lld is not its owner's value", x.kind, (long long)g->globalID(v)); break; }
      note("ghost_values");
    }
  }
  for (auto& x : ts) g->destroyTag(x.t);
}
static void run(Rng& r) {
  GenOpts o; o.maxV = genSize(r, 25, 90, 600); o.minV = std::max(1, o.maxV / 3); o.maxT = 4;
  genBig(o, 100);
  Model m = genModel(r, o);
  Owners own = genOwners(r, m, C.np);
  caseInfo("%s %s", m.desc.c_str(), ownDesc(own, C.np).c_str());
  Ngraph* g = build(m, own, r);
  checkDistributed(g, m, own, CheckOpts("ghost weights"));
  Rng lr(mix(C.caseSeed, C.rank + 5));
  // -------- local tags against shadow maps
  std::vector<GraphVertex*> vs; VertexIterator* vi = g->begin(); GraphVertex* v; while ((v = g->iterate(vi))) vs.push_back(v);
  std::vector<std::vector<GraphEdge*> > es(m.nt);
  for (int t = 0; t < m.nt; t++) { EdgeIterator* ei = g->begin(t); GraphEdge* e; while ((e = g->iterate(ei))) es[t].push_back(e); g->destroy(ei); }
  std::vector<Tag> tags;
  auto newTag = [&] { Tag x; x.type = lr.below(3); x.where = lr.chance(0.4) ? VTX_TYPE : lr.below(m.nt);
    x.t = x.type == 0 ? g->createIntTag(x.where) : x.type == 1 ? g->createLongTag(x.where) : g->createDoubleTag(x.where); tags.push_back(x); };
  auto check = [&](Tag& x) {
    auto cmp = [&](long k, bool ok) { if (!ok) viol("tag (type %d over %d) of entity %ld does not hold the value last stored", x.type, x.where, k); };
    long n = 0;
    if (x.where == VTX_TYPE) { for (size_t i = 0; i < vs.size(); i++) { if (x.type == 2) { auto s = x.shD.find(i); if (s != x.shD.end()) { n++; if (g->getDoubleTag(x.t, vs[i]) != s->second) { cmp(i, false); break; } } }
      else { auto s = x.sh.find(i); if (s != x.sh.end()) { n++; if ((x.type ? g->getLongTag(x.t, vs[i]) : (long)g->getIntTag(x.t, vs[i])) != s->second) { cmp(i, false); break; } } } } }
    else { auto& E = es[x.where]; for (size_t i = 0; i < E.size(); i++) { if (x.type == 2) { auto s = x.shD.find(i); if (s != x.shD.end()) { n++; if (g->getDoubleTag(x.t, E[i]) != s->second) { cmp(i, false); break; } } }
      else { auto s = x.sh.find(i); if (s != x.sh.end()) { n++; if ((x.type ? g->getLongTag(x.t, E[i]) : (long)g->getIntTag(x.t, E[i])) != s->second) { cmp(i, false); break; } } } } }
    note("tag_values", n);
  };
  newTag();
  int ops = 40 + 4 * (int)std::min<size_t>(vs.size(), 100);
  for (int k = 0; k < ops; k++) {
    if (tags.size() < 8 && lr.chance(0.05)) newTag();
    if (tags.size() > 1 && lr.chance(0.01)) { int i = lr.below((int)tags.size()); check(tags[i]); g->destroyTag(tags[i].t); tags.erase(tags.begin() + i); note("tags_destroyed"); }
    Tag& x = tags[lr.below((int)tags.size())];
    size_t n = x.where == VTX_TYPE ? vs.size() : es[x.where].size();
    if (!n) continue;
    // the whole tag is filled from time to time so that stray writes are seen everywhere
    bool fill = lr.chance(0.04); size_t a = fill ? 0 : lr.below((int)n), b = fill ? n : a + 1;
    for (size_t i = a; i < b; i++) {
      if (x.type == 2) { double d = lr.chance(0.1) ? -1e300 * lr.unit() : lr.unit() * 1000 - 500; x.shD[i] = d; if (x.where == VTX_TYPE) g->setDoubleTag(x.t, vs[i], d); else g->setDoubleTag(x.t, es[x.where][i], d); }
      else if (x.type == 1) { long d = (long)lr.next(); x.sh[i] = d; if (x.where == VTX_TYPE) g->setLongTag(x.t, vs[i], d); else g->setLongTag(x.t, es[x.where][i], d); }
      else { int d = (int)lr.next(); x.sh[i] = d; if (x.where == VTX_TYPE) g->setIntTag(x.t, vs[i], d); else g->setIntTag(x.t, es[x.where][i], d); }
    }
    if (lr.chance(0.1)) check(tags[lr.below((int)tags.size())]);
  }
  for (auto& x : tags) check(x);
  // -------- ghost tags; local tags are untouched by them
  ghostTags(g, m, own, r);
  for (auto& x : tags) { check(x); g->destroyTag(x.t); }
  checkDistributed(g, m, own, CheckOpts("after tag operations"));
  if (r.chance(0.6)) {
    Owners to = genOwners(r, m, C.np);
    std::vector<part_t> p(g->numLocalVtxs() + 1); vi = g->begin(); int i = 0;
    while ((v = g->iterate(vi))) p[i++] = to[m.find(g->globalID(v))];
    g->repartition(p.data()); own = to; note("migrations");
    checkDistributed(g, m, own, CheckOpts("ghost weights after migration"));
    ghostTags(g, m, own, r);
  }
  destroyGraph(g);
  if (m.nv() < 2) trivialCase();
}
MODULE("G04", run, NULL, NULL);
