// P05: reported metrics equal their definition
#include "work.h"
#include <regex>
#include <sstream>
using namespace agi;
struct Truth { std::vector<double> disc, nb, lv, tv, ew[8], cut[8]; int empty; bool discOk, emptyOk; };

static Truth truth(const Model& m, const Owners& own) {
  Truth T; int np = C.np; T.empty = 0;
  T.disc.assign(np, 0); T.nb.assign(np, 0); T.lv.assign(np, 0); T.tv.assign(np, 0);
  std::vector<char> has(np, 0); bool zero = false;
  for (int i = 0; i < m.nv(); i++) { T.lv[own[i]] += m.vw[i]; has[own[i]] = 1; zero = zero || m.vw[i] <= 0; }
  for (int p = 0; p < np; p++) { T.tv[p] = T.lv[p]; for (int x : expectedGhosts(m, own, p)) T.tv[p] += m.vw[x]; T.empty += !has[p]; }
  T.emptyOk = !zero;
  for (int t = 0; t < m.nt; t++) { T.ew[t].assign(np, 0); T.cut[t].assign(np, 0);
    for (int p = 0; p < np; p++) for (int i : heldEdges(m, own, t, p)) { T.ew[t][p] += m.e[t][i].w; std::set<int> res; for (int q : m.e[t][i].pins) res.insert(own[q]); if (res.size() > 1) T.cut[t][p] += m.e[t][i].w; } }
  if (m.nt) for (int p = 0; p < np; p++) { std::set<int> nb; for (int i : heldEdges(m, own, 0, p)) for (int q : m.e[0][i].pins) if (own[q] != p) nb.insert(own[q]); T.nb[p] = nb.size(); }
  // components of every part through type 0
  T.discOk = true;
  std::vector<int> par(m.nv()); for (int i = 0; i < m.nv(); i++) par[i] = i;
  std::function<int(int)> find = [&](int x) { while (par[x] != x) x = par[x] = par[par[x]]; return x; };
  std::set<std::pair<int, int> > dir;
  if (m.nt) for (auto& e : m.e[0]) {
    if (!m.hyper) dir.insert({e.pins[0], e.pins[1]});
    for (size_t a = 0; a < e.pins.size(); a++) for (size_t b = a + 1; b < e.pins.size(); b++) if (own[e.pins[a]] == own[e.pins[b]]) par[find(e.pins[a])] = find(e.pins[b]);
  }
  for (auto& d : dir) if (!dir.count({d.second, d.first})) T.discOk = false;      // one-way adjacency: components depend on the direction
  for (int i = 0; i < m.nv(); i++) if (find(i) == i) T.disc[own[i]]++;
  for (int p = 0; p < np; p++) if (T.disc[p] > 0) T.disc[p]--;
  return T;
}
static double mx(const std::vector<double>& v) { return *std::max_element(v.begin(), v.end()); }
static double mn(const std::vector<double>& v) { return *std::min_element(v.begin(), v.end()); }
static double sm(const std::vector<double>& v) { double s = 0; for (double x : v) s += x; return s; }
static bool near(double got, double want, double step = 0.00051) { if (std::isnan(want)) return std::isnan(got); if (std::isinf(want)) return got == want; return fabs(got - want) <= step + 1e-7 * fabs(want); }

static void printed(const std::string& txt, const std::string& key, const std::vector<double>& want, const std::vector<const char*>& what) {
  size_t p = txt.find(key); 
  if (p == std::string::npos) { viol("the evaluation prints no line '%s'", key.substr(key.size() > 60 ? key.size() - 60 : 0).c_str()); return; }
  if (txt.find(key, p + 1) != std::string::npos) viol("the evaluation prints '%s' twice", key.substr(key.size() > 60 ? key.size() - 60 : 0).c_str());
  std::string line = txt.substr(p + key.size(), txt.find('\n', p) - p - key.size());
  size_t c = line.find('>'); if (c != std::string::npos) line = line.substr(c + 1);
  std::istringstream is(line); std::string tok; size_t i = 0;
  while (is >> tok) { double v = strtod(tok.c_str(), NULL);
    if (i < want.size() && what[i]) { if (!near(v, want[i])) viol("printed %s of %s is %s, it is %.6f", what[i], key.substr(key.find_last_of(' ', key.size() > 12 ? key.size() - 12 : 0) + 1).c_str(), tok.c_str(), want[i]); note("values_compared"); }
    i++; }
  if (i != want.size()) viol("line '%s' has %zu values, expected %zu", key.c_str(), i, want.size());
}
static void judgeEval(Ngraph* g, const Model& m, const Truth& T, const std::string& name, bool dflt) {
  captureStdout();
  if (dflt) engpar::evaluatePartition(g); else engpar::evaluatePartition(g, name.c_str());
  std::string txt = releaseStdout();
  if (C.rank) { if (txt.find("PARTITION") != std::string::npos) viol("process %d prints the evaluation too", C.rank); return; }
  std::string pre = "PARTITION " + (dflt ? "" : name) + ": ";
  auto mmai = [&](const std::string& k, const std::vector<double>& v) { double av = sm(v) / C.np; printed(txt, pre + k, {mx(v), mn(v), av, mx(v) / av}, {"maximum", "minimum", "average", av > 0 ? "imbalance" : NULL}); };
  printed(txt, pre + "Empty Parts:", {(double)T.empty}, {T.emptyOk ? "number of empty parts" : NULL});
  printed(txt, pre + "Disconnected Components:", {mx(T.disc), sm(T.disc)}, {T.discOk ? "maximum" : NULL, T.discOk ? "total" : NULL});
  mmai("Neighbors:", T.nb); mmai("Local Vertex:", T.lv); mmai("Total Vertex:", T.tv);
  for (int t = 0; t < m.nt; t++) { mmai(strf("Edges type %d:", t), T.ew[t]); printed(txt, pre + strf("Edges type %d Cut:", t), {mx(T.cut[t]), sm(T.cut[t])}, {"maximum", "total"}); }
  note("evaluations");
}
static void judgeFns(Ngraph* g, const Model& m, const Truth& T) {
  for (int d = -1; d < m.nt; d++) for (int gh = 0; gh < 2; gh++) {
    const std::vector<double>& w = d >= 0 ? T.ew[d] : gh ? T.tv : T.lv;
    double got = engpar::getWeight(g, d, gh);
    if (!feq(got, w[C.rank])) viol("weight of this part in dimension %d%s is reported as %.9g, it is %.9g", d, gh ? " with ghosts" : "", got, w[C.rank]);
    double av = sm(w) / C.np, im = engpar::EnGPar_Get_Imbalance(w[C.rank]);
    if (av > 0 && !feq(im, mx(w) / av)) viol("imbalance of dimension %d is reported as %.9g, it is %.9g", d, im, mx(w) / av);
    note("weights_compared");
  }
  double x = sin(1.0 * (C.caseIdx + 1) * (C.rank + 1)) + 1.1; std::vector<double> all(C.np);
  PMPI_Allgather(&x, 1, MPI_DOUBLE, all.data(), 1, MPI_DOUBLE, MPI_COMM_WORLD);
  double im = engpar::EnGPar_Get_Imbalance(x);
  if (!feq(im, mx(all) * C.np / sm(all))) viol("imbalance of arbitrary weights is %.9g, it is %.9g", im, mx(all) * C.np / sm(all));
  for (int gh = 0; gh < 2; gh++) {
    std::vector<char> buf(64 * 10 + 400, 0); engpar::getImbalances(g, buf.data(), gh);
    if (!C.rank) { std::istringstream is(buf.data()); std::string tok; int d = -1;
      for (; is >> tok; d++) { if (d >= m.nt) break; const std::vector<double>& w = d >= 0 ? T.ew[d] : gh ? T.tv : T.lv; double av = sm(w) / C.np; if (av > 0 && !near(strtod(tok.c_str(), 0), mx(w) / av, 0.000051)) viol("the list of imbalances says %s for dimension %d%s, it is %.6f", tok.c_str(), d, gh ? " with ghosts" : "", mx(w) / av); }
      if (d != m.nt) viol("the list of imbalances has %d entries, expected %d", d + 1, m.nt + 1); }
  }
}
// what the balancers report while they run: imbalances before and after every step, numbers of steps and of vertices moved
static std::vector<double> imbs(const Truth& T, int nt, bool gh) { std::vector<double> v; for (int d = -1; d < nt; d++) { const std::vector<double>& w = d >= 0 ? T.ew[d] : gh ? T.tv : T.lv; double av = sm(w) / C.np; v.push_back(av > 0 ? mx(w) / av : NAN); } return v; }
static bool sameList(const std::string& s, const std::vector<double>& want) {
  std::istringstream is(s); std::string tok; size_t i = 0;
  for (; is >> tok; i++) if (i >= want.size() || (!std::isnan(want[i]) && !near(strtod(tok.c_str(), 0), want[i], 0.000051))) return false;
  return i == want.size();
}
static std::string listed(const std::vector<double>& v) { std::string s; for (double x : v) s += strf("%.4f ", x); return s; }
static void judgeReport(Ngraph* g, const Model& m, Owners& own, Rng& r) {
  DOpts d = genDiffusive(r, m); d.verbosity = r.range(0, 3); d.maxIter = std::min(d.maxIter, 12);
  caseInfo("balanced with %s", d.desc().c_str());
  struct State { std::vector<double> plain, ghosts; long moved; };
  std::vector<State> st; int nt = m.nt; long before = 0; Truth T = truth(m, own); st.push_back({imbs(T, nt, false), imbs(T, nt, true), 0});
  watchSteps(g, &m, &own); Owners* po = &own; const Model* mm = &m; std::vector<State>* ps = &st; long* pb = &before;
  SM.after = [=] { long all = 0, mine = SM.moved; PMPI_Allreduce(&mine, &all, 1, MPI_LONG, MPI_SUM, MPI_COMM_WORLD); Truth U = truth(*mm, *po); ps->push_back({imbs(U, nt, false), imbs(U, nt, true), all - *pb}); *pb = all; };
  captureStdout(); engpar::balance(d.make(g), d.verbosity); std::string txt = releaseStdout();
  unwatchSteps();
  if (C.rank) return;
  if (C.np == 1) return;
  // (steps with a plan so far, of them in this dimension): all the readings the report leaves open
  std::set<std::pair<size_t, long> > at; at.insert({0, 0}); int starts = 0; bool done = false; long n;
  std::istringstream is(txt); std::string l; size_t q;
  auto keep = [&](const std::function<void(size_t, long, std::set<std::pair<size_t, long> >&)>& f) { std::set<std::pair<size_t, long> > to; for (auto& x : at) f(x.first, x.second, to); at.swap(to); note("reports_judged"); return !at.empty(); };
  while (std::getline(is, l)) {
    if ((q = l.find("with imbalances: ")) != std::string::npos) {
      std::string x = l.substr(q + 17); starts++; size_t k = at.begin()->first;
      if (!keep([&](size_t k, long, std::set<std::pair<size_t, long> >& to) { if (sameList(x, d.ghosts ? st[k].ghosts : st[k].plain)) to.insert({k, 0}); })) { viol("the balancer reports to start with the imbalances '%s', they are %s", x.c_str(), listed(d.ghosts ? st[k].ghosts : st[k].plain).c_str()); return; }
      int t = -1; if ((q = l.find("edge type ")) != std::string::npos) t = atoi(l.c_str() + q + 10);
      if (starts > (int)d.prio.size() || d.prio[starts - 1] != t) { viol("the balancer reports to work on dimension %d as number %d of its priorities", t, starts); return; }
    } else if ((q = l.find("Imbalances <v, e0, ...>: ")) != std::string::npos) {
      std::string x = l.substr(q + 25); size_t k = at.begin()->first;
      if (!keep([&](size_t k, long i, std::set<std::pair<size_t, long> >& to) { if (k + 1 < st.size() && sameList(x, st[k + 1].plain)) to.insert({k + 1, i + 1}); if (sameList(x, st[k].plain)) to.insert({k, i}); })) { viol("after step %zu the balancer reports the imbalances '%s', they are %s", k + 1, x.c_str(), listed(st[std::min(k + 1, st.size() - 1)].plain).c_str()); return; }
    } else if (sscanf(l.c_str(), "ENGPAR     Migrating %ld vertices", &n) == 1) {
      if (!keep([&](size_t k, long i, std::set<std::pair<size_t, long> >& to) { if (n == 0 || (k && n == st[k].moved)) to.insert({k, i}); })) { viol("the balancer reports %ld vertices migrated in a step whose plans held another number", n); return; }
    } else if ((q = l.find("Completed diffusion for ")) != std::string::npos) {
      size_t a = l.rfind(" in ", l.find(" steps and")); n = a == std::string::npos ? -1 : atol(l.c_str() + a + 4); size_t k = at.begin()->first; long i0 = at.begin()->second;
      if (!keep([&](size_t k, long i, std::set<std::pair<size_t, long> >& to) { if (d.verbosity >= 1) { if (n == i) to.insert({k, i}); } else if (n >= 0 && k + n < st.size()) to.insert({k + n, 0}); })) { viol("the balancer reports %ld steps on a dimension (seen: %ld; %zu before, %zu in all)", n, i0, k, st.size() - 1); return; }
    } else if ((q = l.find("Diffusion completed in ")) != std::string::npos) {
      n = atol(l.c_str() + q + 23); done = true;
      if (n != (long)st.size() - 1) { viol("the balancer reports %ld iterations, it made %zu", n, st.size() - 1); return; }
    }
  }
  if (!done) viol("the balancer does not report its end");
  if (!keep([&](size_t k, long i, std::set<std::pair<size_t, long> >& to) { if (k + 1 == st.size()) to.insert({k, i}); })) viol("the balancer's progress does not account for its %zu steps", st.size() - 1);
}
static void judgeWeightReport(Ngraph* g, Model& m, const Owners& own, Rng& r) {
  double tol = 1.0 + 0.05 * r.range(1, 10), sf = 0.1 * r.range(1, 5); int et = r.below(m.nt), vb = r.range(0, 3), mi = r.range(1, 15);
  caseInfo("weights balanced to %.2f step %.1f at verbosity %d", tol, sf, vb);
  std::vector<double> b = imbs(truth(m, own), m.nt, false);
  engpar::WeightInput* w = engpar::createWeightInput(g, tol, sf, et); w->maxIterations = mi;
  captureStdout(); engpar::balanceWeights(w, vb); std::string txt = releaseStdout();
  std::vector<double> mine, all(m.nv(), 0), res(m.nv(), 0); VertexIterator* it = g->begin(); GraphVertex* v;
  while ((v = g->iterate(it))) { int i = m.find(g->globalID(v)); if (i >= 0) all[i] = g->weight(v); }
  PMPI_Allreduce(all.data(), res.data(), m.nv(), MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
  m.vw = res; m.unitVW = false;
  if (C.rank || C.np == 1) return;
  std::vector<double> e = imbs(truth(m, own), m.nt, false);
  size_t q = txt.find("with imbalance: ");
  if (q == std::string::npos) viol("the weight balancer does not report its start");
  else { std::string x = txt.substr(q + 16, txt.find('\n', q) - q - 16); if (!sameList(x, b)) viol("the weight balancer reports to start with '%s', the imbalances are %s", x.c_str(), listed(b).c_str()); note("reports_judged"); }
  q = txt.rfind("Imbalances <v, e0, ...>: ");
  if (q != std::string::npos) { std::string x = txt.substr(q + 25, txt.find('\n', q) - q - 25); if (!sameList(x, e)) viol("the weight balancer's last report is '%s', the imbalances are %s", x.c_str(), listed(e).c_str()); note("reports_judged"); }
}
static void run(Rng& r) {
  GenOpts o; o.maxV = genSize(r, 40, 120, 400); o.minV = 1; o.zeroDeg = false; if (r.chance(0.5)) o.sym = 1;
  if (r.chance(0.4)) o.topo = r.below(2) ? T_GRIDN : T_BLOCKS;
  genBig(o, 100);
  Model m = genModel(r, o);
  Owners own = genOwners(r, m, C.np);
  std::string name; int nk = r.below(8), len = nk < 5 ? r.below(20) : nk < 7 ? r.range(40, 300) : r.range(300, 2000);
  for (int i = 0; i < len; i++) name += "abcdefghijklmnopqrstuvwxyzABC_-./ 0123456789"[r.below(44)];
  bool dflt = r.chance(0.1);
  caseInfo("%s %s name of %d characters", m.desc.c_str(), ownDesc(own, C.np).c_str(), len);
  Ngraph* g = build(m, own, r);
  Truth T = truth(m, own);
  judgeEval(g, m, T, name, dflt); judgeFns(g, m, T);
  bool mig = r.chance(0.5);
  if (mig) {
    Owners to = genOwners(r, m, C.np); migrateTo(g, m, to, r.below(4));
    T = truth(m, to); judgeEval(g, m, T, name + "2", false); judgeFns(g, m, T); if (!C.rank) note("after_migration");
  }
  bool rep = C.np > 1 && r.chance(0.4), wrep = C.np > 1 && r.chance(0.15);
  if (rep || wrep) {
    Owners now; if (gatherOwners(g, m, now, MPI_COMM_WORLD, "before balancing")) { if (rep) judgeReport(g, m, now, r); if (wrep) judgeWeightReport(g, m, now, r); }
  }
  if (m.nv() < 2) trivialCase();
  destroyGraph(g);
}
MODULE("P05", run, NULL, NULL);
