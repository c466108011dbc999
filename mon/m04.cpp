// M04: weight diffusion conserves weight and its plan explains every change
#include "work.h"
using namespace agi;
typedef std::map<std::pair<gidt, gidt>, double> Net;

static std::vector<double> gatherWeights(Ngraph* g, const Model& m) {
  std::vector<double> w(m.nv(), 0), all(m.nv(), 0); VertexIterator* it = g->begin(); GraphVertex* v;
  while ((v = g->iterate(it))) { int k = m.find(g->globalID(v)); if (k >= 0) w[k] = g->weight(v); }
  PMPI_Allreduce(w.data(), all.data(), m.nv(), MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
  return all;
}
// all weight plan entries of all processes; bad: an entry of a vertex this process does not own
static Net gatherPlan(Ngraph* g, const Model& m, const Owners& own, const char* when) {
  std::vector<gidt> ids; std::vector<double> w;
  WeightPartitionMap* wp = g->getWeightPartition();
  for (auto& a : *wp) for (auto& b : a.second) {
    int i = m.find(a.first), j = m.find(b.first);
    if (i < 0 || own[i] != C.rank) { viol("%s the weight plan has an entry of vertex %lld, which is not owned here", when, (long long)a.first); continue; }
    if (j < 0) { viol("%s the weight plan sends to the unknown vertex %lld", when, (long long)b.first); continue; }
    ids.push_back(a.first); ids.push_back(b.first); w.push_back(b.second);
  }
  std::vector<gidt> bits(w.size()); if (!w.empty()) memcpy(&bits[0], &w[0], 8 * w.size());
  std::vector<gidt> ai = allgatherv(ids, MPI_COMM_WORLD), aw = allgatherv(bits, MPI_COMM_WORLD);
  Net n; for (size_t i = 0; i < aw.size(); i++) { double d; memcpy(&d, &aw[i], 8); n[{ai[2 * i], ai[2 * i + 1]}] += d; }
  return n;
}
static std::set<std::pair<int, int> > adjacent(const Model& m) {
  std::set<std::pair<int, int> > s;
  for (int t = 0; t < m.nt; t++) for (auto& e : m.e[t]) for (int a : e.pins) for (int b : e.pins) s.insert({a, b});
  return s;
}

static void direct(Rng& r, Ngraph* g, Model& m, const Owners& own) {
  Net net; int rounds = r.range(1, 4); std::string hist;
  for (int k = 0; k < rounds; k++) {
    Rng lr(mix(r.next(), C.rank + 1));
    if (r.chance(0.1)) { g->resetPartition(); net.clear(); hist += " reset"; }
    double dens = r.unit();
    WeightMigration* plan = new WeightMigration(g);
    std::map<GraphVertex*, std::map<GraphVertex*, double> > want; double total = 0;
    VertexIterator* it = g->begin(); GraphVertex* v;
    if (lr.chance(0.15)) { if ((v = g->iterate(it))) plan->insert(v, v, 1); plan->clear(); it = g->begin(); }
    std::vector<gidt> ids; std::vector<gidt> bits;
    while ((v = g->iterate(it))) {
      if (!lr.chance(dens)) continue;
      double left = g->weight(v); int t = lr.below(m.nt);
      GraphIterator* gi = g->adjacent(v, t); GraphVertex* u;
      while ((u = g->iterate(gi))) {
        if (u == v || !lr.chance(0.5)) continue;
        double w = lr.chance(0.1) ? left : left * lr.unit() * 0.5;
        if (lr.chance(0.3)) w = std::floor(w);
        if (w < 0 || w > left) continue;
        plan->insert(v, u, w); want[v][u] += w; left -= w; total += w;
        gidt b; memcpy(&b, &w, 8); ids.push_back(g->globalID(v)); ids.push_back(g->globalID(u)); bits.push_back(b);
        note("transfers");
      }
      g->destroy(gi);
    }
    for (auto& a : want) {
      if (!plan->has(a.first)) viol("the weight plan lacks a vertex that was inserted");
      for (auto& b : a.second) if (!plan->has(a.first, b.first) || !feq(plan->get(a.first, b.first), b.second)) { viol("the weight plan does not hold the weight that was inserted"); break; }
    }
    size_t n = 0, nw = 0; for (auto& a : want) nw += a.second.size();
    for (WeightMigration::iterator q = plan->begin(); q != plan->end(); q++) { n++; GraphVertex *a = q.u(), *b = q.v(); if (!want.count(a) || !want[a].count(b) || !feq(want[a][b], q.weight())) { viol("walking the weight plan yields something that was not inserted"); break; } }
    if (n != nw) viol("walking the weight plan yields %zu transfers, %zu inserted", n, nw);
    g->migrate(plan);
    std::vector<gidt> ai = allgatherv(ids, MPI_COMM_WORLD), ab = allgatherv(bits, MPI_COMM_WORLD);
    for (size_t i = 0; i < ab.size(); i++) {
      double w; memcpy(&w, &ab[i], 8); int a = m.find(ai[2 * i]), b = m.find(ai[2 * i + 1]);
      m.vw[a] -= w; m.vw[b] += w; net[{m.vgid[a], m.vgid[b]}] += w; net[{m.vgid[b], m.vgid[a]}] -= w;
    }
    hist += strf(" %zu", ab.size()); m.unitVW = false;
    std::string when = "after weight transfers" + hist;
    CheckOpts co(when.c_str());
    if (!checkDistributed(g, m, own, co)) return;       // vertex weights, ghost weights, edges
    Net got = gatherPlan(g, m, own, when.c_str());
    for (auto& x : net) { auto f = got.find(x.first); double gv = f == got.end() ? 0 : f->second; if (!feq(gv, x.second, 1e-7)) { viol("%s the weight plan records %g from %lld to %lld, the net transfer is %g", when.c_str(), gv, (long long)x.first.first, (long long)x.first.second, x.second); return; } }
    for (auto& x : got) if (!net.count(x.first) && !feq(x.second, 0)) { viol("%s the weight plan records %g from %lld to %lld, nothing was sent", when.c_str(), x.second, (long long)x.first.first, (long long)x.first.second); return; }
    if (C.rank == 0) { note("weight_migrations"); note("plan_entries", (long)net.size()); }
  }
}

static void balanced(Rng& r, Ngraph* g, Model& m, const Owners& own, bool& moved) {
  int rounds = r.range(1, 2);
  std::set<std::pair<int, int> > adj = adjacent(m);
  for (int k = 0; k < rounds; k++) {
    double tol = 1.0 + 0.05 * r.range(1, 12), sf = r.chance(0.3) ? 1.0 : 0.05 * r.range(1, 10); int et = r.chance(0.6) ? 0 : r.below(m.nt);
    std::vector<double> pw(C.np, 0); double tot = 0, mx = 0;
    for (int i = 0; i < m.nv(); i++) { pw[own[i]] += m.vw[i]; tot += m.vw[i]; }
    for (double x : pw) mx = std::max(mx, x);
    double imb = tot > 0 ? mx / (tot / C.np) : 1;
    engpar::WeightInput* wi = engpar::createWeightInput(g, tol, sf, et); int mi = r.range(1, 60); if (!r.chance(0.3)) wi->maxIterations = mi;
    engpar::balanceWeights(wi, -1);
    std::string when = strf("after balancing weights (tolerance %.2f, imbalance was %.4f)", tol, imb);
    std::vector<double> old = m.vw; m.vw = gatherWeights(g, m); m.unitVW = false;
    double nt = 0; bool same = true;
    for (int i = 0; i < m.nv(); i++) { nt += m.vw[i]; if (m.vw[i] < -1e-9) { viol("%s vertex %lld has the weight %g", when.c_str(), (long long)m.vgid[i], m.vw[i]); return; } same = same && m.vw[i] == old[i]; }
    if (!feq(nt, tot, 1e-9)) { viol("%s the total weight is %.12g, it was %.12g", when.c_str(), nt, tot); return; }
    if (imb < tol - 1e-9) { if (!same) viol("%s a graph within tolerance changed its weights", when.c_str()); note("kept"); }
    moved = moved || !same;
    CheckOpts co(when.c_str());
    if (!checkDistributed(g, m, own, co)) return;
    if (C.np == 1) { if (!same) viol("%s one process changed its weights", when.c_str()); continue; }
    Net got = gatherPlan(g, m, own, when.c_str());
    std::vector<double> pred = old;
    for (auto& x : got) {
      int a = m.find(x.first.first), b = m.find(x.first.second);
      if (!(x.second > 0)) { viol("%s the plan holds %g from %lld to %lld", when.c_str(), x.second, (long long)x.first.first, (long long)x.first.second); return; }
      if (!adj.count({a, b})) { viol("%s the plan sends from %lld to %lld, which share no edge", when.c_str(), (long long)x.first.first, (long long)x.first.second); return; }
      pred[a] -= x.second; pred[b] += x.second;
    }
    for (int i = 0; i < m.nv(); i++) if (!feq(pred[i], m.vw[i], 1e-7)) { viol("%s vertex %lld weighs %g, its old weight %g and the plan give %g", when.c_str(), (long long)m.vgid[i], m.vw[i], old[i], pred[i]); return; }
    if (C.rank == 0) { note("weight_balances"); note("weights_changed", !same); note("plan_entries", (long)got.size()); }
  }
}
// clearly unbalanced well-connected graphs get better
static void clear(Rng& r) {
  GenOpts o; int np = C.np; o.minV = 80 * np; o.maxV = 200 * np; o.minT = 1; o.maxT = 2; o.topo = r.chance(0.5) ? T_GRIDN : T_GRIDS; o.sym = 1; o.multiEdges = false; o.zeroDeg = false;
  Model m = genModel(r, o); m.unitVW = false;
  bool even = r.chance(0.5); for (double& w : m.vw) w = even ? 1000 : r.range(500, 3000);
  int n = m.nv(), heavy = r.below(np); Owners own(n);
  double f = np == 1 ? 1 : std::min(0.8, 1.6 / np + 0.1 * r.unit()); std::vector<double> cut(np + 1, 0);
  for (int p = 0; p < np; p++) cut[p + 1] = cut[p] + (p == heavy ? f : np == 1 ? 0 : (1 - f) / (np - 1));
  for (int i = 0; i < n; i++) { int p = 0; while (p + 1 < np && i >= cut[p + 1] * n) p++; own[i] = p; }
  double tol = 1.03 + 0.1 * r.unit(), sf = 0.1 + 0.4 * r.unit(); int mi = r.range(20, 80);
  caseInfo("clear %s %s tol=%.3f sf=%.3f steps=%d", m.desc.c_str(), ownDesc(own, np).c_str(), tol, sf, mi);
  if (np == 1) { trivialCase(); return; }
  auto heaviest = [&](const std::vector<double>& w) { std::vector<double> p(np, 0); double t = 0; for (int i = 0; i < n; i++) { p[own[i]] += w[i]; t += w[i]; } return *std::max_element(p.begin(), p.end()) / (t / np); };
  double i0 = heaviest(m.vw); if (i0 < tol + 0.2) { trivialCase(); return; }
  Ngraph* g = build(m, own, r);
  engpar::WeightInput* wi = engpar::createWeightInput(g, tol, sf, 0); wi->maxIterations = mi; engpar::balanceWeights(wi, -1);
  double i1 = heaviest(gatherWeights(g, m));
  if (!(i1 < i0)) viol("balancing weights leaves the imbalance at %.4f, it was %.4f (tolerance %.3f)", i1, i0, tol);
  if (C.rank == 0) { note("improved"); note("gain_percent", (long)(100 * (i0 - i1) / (i0 - 1))); note("reached_tolerance", i1 < tol + 0.02); }
  destroyGraph(g);
}
static void run(Rng& r) {
  if (C.caseIdx % 8 == 5) { clear(r); return; }
  GenOpts o; o.maxV = genSize(r, 30, 90, 300); o.minV = std::max(2, o.maxV / 3); o.maxT = 4; o.zeroDeg = false;
  bool bal = r.chance(0.55);
  if (bal && r.chance(0.6)) { o.topo = r.chance(0.5) ? T_GRIDN : T_GRIDS; o.sym = 1; }
  Model m = genModel(r, o);
  int wk = r.below(3);
  if (bal) for (double& w : m.vw) w = wk == 0 ? r.range(1, 2000) : wk == 1 ? 100 * r.unit() * (r.chance(0.2) ? 50 : 1) : r.range(0, 40);
  if (bal) m.unitVW = false;
  Owners own = genOwners(r, m, C.np, bal && r.chance(0.5) ? 2 : -1);
  caseInfo("%s %s %s%d", m.desc.c_str(), ownDesc(own, C.np).c_str(), bal ? "balance w" : "direct", wk);
  Ngraph* g = build(m, own, r); bool moved = !bal;
  if (bal) balanced(r, g, m, own, moved); else direct(r, g, m, own);
  if (C.violsThisCase == 0 && !checkValidity(g)) viol("the validity check fails");
  destroyGraph(g);
  if (!moved) trivialCase();
}
MODULE("M04", run, NULL, NULL);
