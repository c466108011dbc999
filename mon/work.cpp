#include "work.h"
#include <agiMigrationTimers.h>
using namespace agi;

std::string DOpts::desc() const {
  std::string s = "prio=";
  for (size_t i = 0; i < prio.size(); i++) s += strf("%d@%s,", prio[i], i < tol.size() ? strf("%.3f", tol[i]).c_str() : "def");
  return s + strf(" it=%d/%d step=%.2f sides=%d q=%d/%d gh=%d pw=%d con=%d/%d growth=%.3f%s%s", maxIter, maxPerType, step, sides, distance, push, ghosts, partW, minCon, conType, growth, lazy ? " defaults left" : "", twice ? " ghosts said twice" : "");
}
engpar::DiffusiveInput* DOpts::make(Ngraph* g) const {
  engpar::DiffusiveInput* in = engpar::createDiffusiveInput(g, step);
  for (size_t i = 0; i < prio.size(); i++) { if (i < tol.size()) in->addPriority(prio[i], tol[i]); else in->priorities.push_back(prio[i]); }
#define SET(field, value, def) do { if (!lazy || !((value) == (def))) in->field = value; } while (0)
  SET(maxIterations, maxIter, 1000); SET(maxIterationsPerType, maxPerType, 100); SET(runPartWeightBalancer, partW, false); SET(sides_edge_type, sides, 0);
  SET(bfsPush, push, true); SET(minConnectivity, minCon, 1); SET(connectivityType, conType, 0); SET(limitEdgeCutGrowth, growth, 0);
#undef SET
  if (twice) in->balanceGhosts(!ghosts);   // said again: the last word counts
  if (!lazy || ghosts || twice) in->balanceGhosts(ghosts);
  if (distance >= 0) in->useDistanceQueue = distance;
  return in;
}
DOpts genDiffusive(Rng& r, const Model& m) {
  DOpts d;
  std::vector<int> all; for (int t = -1; t < m.nt; t++) all.push_back(t);
  r.shuffle(all);
  int n = r.chance(0.15) ? (int)all.size() : r.range(1, std::min<int>(3, all.size()));
  for (int i = 0; i < n; i++) d.prio.push_back(all[i]);
  bool def = r.chance(0.1);
  if (def && r.chance(0.5)) n = r.below(n); else if (def) n = 0;   // the last ones have the default tolerance
  for (int i = 0; i < n; i++) d.tol.push_back(r.chance(0.2) ? 1.0 + 0.01 * r.range(0, 4) : 1.0 + 0.05 * r.range(1, 10));
  d.maxIter = r.chance(0.2) ? r.range(0, 3) : r.range(4, 40); d.maxPerType = r.chance(0.2) ? r.range(0, 3) : r.range(3, 30);
  d.step = r.chance(0.2) ? 1.0 : 0.05 * r.range(1, 10);
  d.partW = r.chance(0.15); d.sides = r.chance(0.6) ? 0 : r.below(m.nt); d.ghosts = r.chance(0.2);
  d.distance = r.chance(0.3) ? -1 : r.below(2); d.push = r.chance(0.5);
  d.minCon = r.chance(0.7) ? 1 : r.range(2, 3); d.conType = r.chance(0.6) ? 0 : r.below(m.nt);
  d.growth = r.chance(0.75) ? 0 : r.chance(0.5) ? 0.5 * r.range(1, 6) : 0.2 + 2 * r.unit(); d.twice = r.chance(0.2);
  d.verbosity = r.chance(0.85) ? -1 : r.range(0, 3);
  d.lazy = r.chance(0.3); int keep = r.below(512);
  if (d.lazy) {
    if (keep & 1) d.maxIter = 1000;
    if ((keep & 6) == 6) d.maxPerType = 100;
    if (keep & 8) d.partW = false;
    if (keep & 16) d.sides = 0;
    if (keep & 32) d.push = true;
    if (keep & 64) d.minCon = 1;
    if (keep & 128) d.conType = 0;
    if (keep & 256) d.growth = 0;
  }
  return d;
}

StepMon SM = {false, NULL, 0, 0, 0, "", NULL, NULL, {}, nullptr, nullptr};
void watchSteps(Ngraph* g, const Model* m, Owners* own) { SM.on = true; SM.g = g; SM.steps = SM.moved = SM.illegal = 0; SM.firstBad.clear(); SM.m = m; SM.own = own; SM.before = SM.after = nullptr; }
void unwatchSteps() { SM.on = false; }

extern "C" void __real__ZN3agi6Ngraph7migrateEPNS_9MigrationEPNS_15MigrationTimersE(Ngraph*, Migration*, MigrationTimers*) __attribute__((weak));
extern "C" void __wrap__ZN3agi6Ngraph7migrateEPNS_9MigrationEPNS_15MigrationTimersE(Ngraph* g, Migration* plan, MigrationTimers* mt) {
  if (!SM.on || g != SM.g) { __real__ZN3agi6Ngraph7migrateEPNS_9MigrationEPNS_15MigrationTimersE(g, plan, mt); return; }
  SM.steps++;
  std::set<int> nb; GhostIterator* gi = g->beginGhosts(); GraphVertex* v;
  while ((v = g->iterate(gi))) nb.insert(g->owner(v));
  std::set<GraphVertex*> seen; std::vector<gidt> mine;
  for (Migration::iterator it = plan->begin(); it != plan->end(); ++it) {
    GraphVertex* x = *it; int d = plan->get(x);
    std::string bad;
    if (g->localID(x) < 0 || g->localID(x) >= g->numLocalVtxs()) bad = "a vertex that is not owned here";
    else if (!seen.insert(x).second) bad = "a vertex twice";
    else if (d == self()) bad = "a vertex to its own process";
    else if (!nb.count(d)) bad = strf("vertex %lld to process %d, which is no neighbour", (long long)g->globalID(x), d);
    if (!bad.empty()) { if (!SM.illegal++) SM.firstBad = strf("step %ld moves %s", SM.steps, bad.c_str()); }
    else { mine.push_back(g->globalID(x)); mine.push_back(d); SM.moved++; }
  }
  __real__ZN3agi6Ngraph7migrateEPNS_9MigrationEPNS_15MigrationTimersE(g, plan, mt);
  if (SM.own) {
    std::vector<int> cnt; std::vector<gidt> all = allgatherv(mine, PCU_Get_Comm(), &cnt);
    SM.plan.assign(cnt.size(), {}); size_t i = 0;
    for (size_t p = 0; p < cnt.size(); p++) for (size_t end = i + cnt[p]; i < end; i += 2) { int k = SM.m->find(all[i]); if (k >= 0) SM.plan[p].push_back({k, (int)all[i + 1]}); }
    if (SM.before) SM.before();
    for (auto& p : SM.plan) for (auto& x : p) (*SM.own)[x.first] = x.second;
  }
  if (SM.after) SM.after();
}

int headings(const std::string& s) { int n = 0; for (size_t at = 0; (at = s.find("Starting diffusion on ", at)) != std::string::npos; at++) n++; return n; }
void runBalance(Ngraph* g, const Model& m, const Owners& own0, const DOpts& d, Run& run) {
  static Owners cur; cur = own0; run.steps.clear(); run.criteria = 0; run.attributed = true;
  watchSteps(g, &m, &cur);
  SM.before = [&run] { if (C.rank == 0) run.steps.push_back({cur, SM.plan, headings(peekStdout()) - 1}); };
  captureStdout(); engpar::balance(d.make(g), d.verbosity); run.text = releaseStdout();
  unwatchSteps();
  run.end = cur; run.criteria = headings(run.text);
  int last = 0;
  for (auto& s : run.steps) { if (s.criterion < last) run.attributed = false; last = s.criterion; }
  if (run.criteria > (int)d.prio.size() || last >= run.criteria || d.verbosity < 0) run.attributed = false;
}

Groups makeGroups(Rng& r, int k, bool scattered, int factor) {
  Groups G; int np = C.np; G.factor = factor;
  MPI_Comm_dup(MPI_COMM_WORLD, &G.large);
  std::vector<int> perm(np); for (int i = 0; i < np; i++) perm[i] = i;
  if (scattered) r.shuffle(perm);
  if (factor > 0) k = std::max(1, np / factor);
  G.k = k; G.world.assign(perm.begin(), perm.begin() + k);
  if (!scattered && factor > 0) for (int i = 0; i < k; i++) G.world[i] = i * factor;
  if (!scattered && factor == 0) std::sort(G.world.begin(), G.world.end());
  int pos = (int)(std::find(G.world.begin(), G.world.end(), C.rank) - G.world.begin());
  G.orig = pos < k;
  MPI_Comm_split(MPI_COMM_WORLD, G.orig ? 0 : 1, G.orig ? pos : C.rank, &G.small);
  if (factor > 0) {
    std::vector<int> rest; for (int p = 0; p < np; p++) if (std::find(G.world.begin(), G.world.end(), p) == G.world.end()) rest.push_back(p);
    if (scattered) r.shuffle(rest);
    size_t q = 0;
    for (int i = 0; i < k; i++) { std::vector<int> p(1, G.world[i]); for (int j = 1; j < factor; j++) p.push_back(rest[q++]); if (scattered) r.shuffle(p); G.parts.push_back(p); }
  }
  return G;
}
void freeGroups(Groups& G) { MPI_Comm_free(&G.small); MPI_Comm_free(&G.large); }
