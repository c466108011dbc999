// P02: balancing keeps what is balanced and improves what is not
#include "work.h"
using namespace agi;

// weight of every part in one dimension, from the model
static std::vector<double> partWeights(const Model& m, const Owners& own, int dim, bool ghosts) {
  std::vector<double> w(C.np, 0);
  if (dim < 0) {
    for (int i = 0; i < m.nv(); i++) w[own[i]] += m.vw[i];
    if (ghosts) for (int p = 0; p < C.np; p++) for (int i : expectedGhosts(m, own, p)) w[p] += m.vw[i];
  } else for (auto& e : m.e[dim]) {
    if (m.hyper) { std::set<int> s; for (int p : e.pins) s.insert(own[p]); for (int p : s) w[p] += e.w; }
    else w[own[e.pins[0]]] += e.w;
  }
  return w;
}
static double maxOf(const std::vector<double>& w) { double x = 0; for (double v : w) x = std::max(x, v); return x; }
static double avgOf(const std::vector<double>& w) { double x = 0; for (double v : w) x += v; return x / w.size(); }

static void hist(Ngraph* g, const Model& m, const Owners& own0, const DOpts& d, std::vector<Owners>& states) {
  static Owners cur; cur = own0;
  watchSteps(g, &m, &cur);
  states.assign(1, own0);
  std::vector<Owners>* st = &states;
  SM.after = [st] { st->push_back(cur); };
  engpar::balance(d.make(g), -1);
  unwatchSteps();
}

static void keep(Rng& r) {
  GenOpts o; o.maxV = genSize(r, 60, 150, 500); o.minV = o.maxV / 2; o.maxT = 4; o.zeroDeg = false;
  if (r.chance(0.6)) o.topo = r.chance(0.5) ? T_GRIDN : T_GRIDS;
  Model m = genModel(r, o);
  Owners own = genOwners(r, m, C.np);
  DOpts d = genDiffusive(r, m);
  d.tol.clear(); bool possible = true;
  for (int p : d.prio) {
    std::vector<double> w = partWeights(m, own, p, d.ghosts);
    double a = avgOf(w), imb = a > 0 ? maxOf(w) / a : 1;
    if (a <= 0) possible = false;
    d.tol.push_back(imb * (1 + (r.chance(0.5) ? 1e-4 : 0.3 * r.unit())) + 1e-6);
  }
  caseInfo("keep %s %s %s", m.desc.c_str(), ownDesc(own, C.np).c_str(), d.desc().c_str());
  if (!possible || C.np == 1) trivialCase();
  Ngraph* g = build(m, own, r);
  uint64_t before = localDigest(g);
  std::vector<Owners> st; hist(g, m, own, d, st);
  if (possible) {
    if (st.size() != 1) viol("a graph within tolerance for all criteria was migrated %zu times", st.size() - 1);
    if (localDigest(g) != before) viol("a graph within tolerance for all criteria was changed");
    if (C.rank == 0) note("kept_graphs");
  }
  destroyGraph(g);
}

static void later(Rng& r) {
  GenOpts o; o.maxV = genSize(r, 80, 200, 900); o.minV = o.maxV / 2; o.maxT = 4; o.mode = r.chance(0.85) ? 1 : 0; o.zeroDeg = false; o.sym = 1;
  o.topo = r.chance(0.7) ? (r.chance(0.6) ? T_GRIDN : T_GRIDS) : -1;
  Model m = genModel(r, o);
  Owners own = genOwners(r, m, C.np, r.chance(0.5) ? 1 : 2);
  if (r.chance(0.5)) { int n = m.nv(); double f = 0.2 + 0.5 * r.unit(); for (int i = 0; i < n; i++) own[i] = C.np == 1 ? 0 : i < f * n ? 0 : 1 + (int)((i - f * n) * (C.np - 1) / (n - f * n + 1)); }
  DOpts d = genDiffusive(r, m); d.ghosts = false; d.maxIter = r.range(10, 60); d.maxPerType = r.range(5, 25);
  std::vector<int> pr = {-1}; if (m.hyper) for (int t = 0; t < m.nt; t++) pr.push_back(t);
  r.shuffle(pr); int n = std::min<int>(pr.size(), r.range(2, 4)); pr.resize(n);
  if (n == 1) pr.push_back(0);       // traditional: vertices first, then edges
  d.prio = pr; d.tol.clear(); for (size_t i = 0; i < pr.size(); i++) d.tol.push_back(1.0 + 0.02 * r.range(1, 15));
  caseInfo("later %s %s %s", m.desc.c_str(), ownDesc(own, C.np).c_str(), d.desc().c_str());
  Run run; d.verbosity = 0; Ngraph* g = build(m, own, r); runBalance(g, m, own, d, run); destroyGraph(g);
  long judged = 0;
  if (C.rank == 0 && run.attributed) for (int k = 0; k + 1 < run.criteria; k++) {
    if (pr[k] >= 0 && !m.hyper) continue;
    size_t to = 0; while (to < run.steps.size() && run.steps[to].criterion <= k) to++;
    const Owners& end = to < run.steps.size() ? run.steps[to].before : run.end;
    std::vector<double> w = partWeights(m, end, pr[k], false);
    double bound = std::max(maxOf(w), d.tol[k] * avgOf(w)); bool bad = false;
    for (size_t s = to; s < run.steps.size(); s++) {
      double now = maxOf(partWeights(m, s + 1 < run.steps.size() ? run.steps[s + 1].before : run.end, pr[k], false)); judged++;
      if (now > bound * (1 + 1e-9) + 1e-9) { viol("criterion %d was completed with heaviest part %.6g (tolerance times average %.6g); step %zu of a later criterion raises it to %.6g", pr[k], maxOf(w), d.tol[k] * avgOf(w), s - to + 1, now); bad = true; break; }
    }
    if (bad) break;
  }
  int any = judged > 0; PMPI_Bcast(&any, 1, MPI_INT, 0, MPI_COMM_WORLD);
  if (C.rank == 0) { note("later_steps_judged", judged); note("not_attributed", !run.attributed); }
  if (!any) trivialCase();
}

static void progress(Rng& r) {
  GenOpts o; int np = C.np; o.minV = 80 * np; o.maxV = 200 * np; o.minT = 1; o.maxT = 2; o.topo = r.chance(0.5) ? T_GRIDN : T_GRIDS; o.sym = 1; o.multiEdges = false;
  o.weights = r.chance(0.5) ? 0 : 1; o.mode = r.chance(0.6) ? 1 : 0; o.zeroDeg = false; o.coords = 0;
  Model m = genModel(r, o);
  if (!m.hyper) { std::vector<MEdge>& e = m.e[0]; std::set<std::pair<int, int> > s; for (auto& x : e) s.insert({x.pins[0], x.pins[1]}); size_t n0 = e.size(); gidt nid = 0; for (auto& x : e) nid = std::max(nid, x.id); for (size_t i = 0; i < n0; i++) if (!s.count({e[i].pins[1], e[i].pins[0]})) { MEdge y = e[i]; y.id = ++nid; std::swap(y.pins[0], y.pins[1]); e.push_back(y); } }
  double scale = r.chance(0.3) ? 0.37 : 1;
  if (scale != 1) { for (auto& e : m.e[0]) e.w *= 0.1; m.unitEW[0] = false; }
  int n = m.nv(); Owners own(n); int heavy = r.below(np);
  // consecutive rows, one part clearly heavier
  double f = np == 1 ? 1 : std::min(0.8, 1.6 / np + 0.1 * r.unit()); std::vector<double> cut(np + 1, 0);
  for (int p = 0; p < np; p++) cut[p + 1] = cut[p] + (p == heavy ? f : np == 1 ? 0 : (1 - f) / (np - 1));
  for (int i = 0; i < n; i++) { int p = 0; while (p + 1 < np && i >= cut[p + 1] * n) p++; own[i] = p; }
  DOpts d; d.prio = {-1}; d.tol = {1.05 + 0.05 * r.unit()}; d.maxIter = r.range(30, 100); d.maxPerType = 100; d.step = 0.1 + 0.3 * r.unit(); d.partW = false; d.sides = 0; d.ghosts = false;
  d.distance = r.chance(0.4) ? -1 : r.below(2); d.push = r.chance(0.5); d.minCon = 1; d.conType = 0; d.growth = 0; d.verbosity = -1;
  if (m.hyper && r.chance(0.25)) d.prio[0] = 0;
  caseInfo("progress %s %s %s", m.desc.c_str(), ownDesc(own, np).c_str(), d.desc().c_str());
  if (np == 1) { trivialCase(); return; }
  std::vector<double> w0 = partWeights(m, own, d.prio[0], false); double i0 = maxOf(w0) / avgOf(w0);
  if (i0 < d.tol[0] + 0.2) { trivialCase(); return; }
  Ngraph* g = build(m, own, r);
  std::vector<Owners> st; hist(g, m, own, d, st);
  std::vector<double> w1 = partWeights(m, st.back(), d.prio[0], false); double i1 = maxOf(w1) / avgOf(w1);
  if (!(i1 < i0)) viol("balancing dimension %d leaves the imbalance at %.4f, it was %.4f (tolerance %.3f)", d.prio[0], i1, i0, d.tol[0]);
  if (C.rank == 0) { note("improved"); note("steps", (long)st.size() - 1); note("gain_percent", (long)(100 * (i0 - i1) / (i0 - 1))); note("reached_tolerance", i1 < d.tol[0]); }
  destroyGraph(g);
}
static void run(Rng& r) { int k = r.below(10); if (k < 3) keep(r); else if (k < 7) later(r); else progress(r); }
MODULE("P02", run, NULL, NULL);
