// P08: each diffusion step moves weight downhill, within its allowance, and balancing stops for cause
#include "work.h"
using namespace agi;
typedef std::vector<double> W;

static W partWeights(const Model& m, const Owners& own, int dim, bool ghosts) {
  W w(C.np, 0);
  if (dim < 0) {
    for (int i = 0; i < m.nv(); i++) w[own[i]] += m.vw[i];
    if (ghosts) for (int p = 0; p < C.np; p++) for (int i : expectedGhosts(m, own, p)) w[p] += m.vw[i];
  } else for (auto& e : m.e[dim]) {
    if (m.hyper) { std::set<int> s; for (int p : e.pins) s.insert(own[p]); for (int p : s) w[p] += e.w; }
    else w[own[e.pins[0]]] += e.w;
  }
  return w;
}
static double maxOf(const W& w) { double x = 0; for (double v : w) x = std::max(x, v); return x; }
static double avgOf(const W& w) { double x = 0; for (double v : w) x += v; return x / w.size(); }
static double imbOf(const W& w) { double a = avgOf(w); return a > 0 ? maxOf(w) / a : 1; }

// weight of the cut edges between every two parts
struct Cut { std::vector<W> side; W total; double tol; };
static Cut cutOf(const Model& m, const Owners& own, int t) {
  Cut c; int np = C.np; c.side.assign(np, W(np, 0)); c.total.assign(np, 0);
  for (auto& e : m.e[t]) {
    std::set<int> s; for (int p : e.pins) s.insert(own[p]);
    if (s.size() < 2) continue;
    for (int p : s) {
      if (!m.hyper && p != own[e.pins[0]]) continue;
      c.total[p] += e.w;
      for (int q : s) if (q != p) c.side[p][q] += e.w;
    }
  }
  c.tol = avgOf(c.total);
  return c;
}

struct Done { int dim; double bound; };
struct Crit { int dim, index; double tol, sideTol; std::vector<Done> done; };
static const double EPS = 1e-9;
static bool clearlyLess(double a, double b) { return a < b - EPS * std::max(1.0, std::max(fabs(a), fabs(b))); }

// what a part may send to another, as documented: downhill, proportional to the shared boundary
static double allowance(const Cut& c, const W& w, const DOpts& d, int p, int q) {
  if (c.side[p][q] <= 0 || w[p] <= w[q]) return 0;
  return (w[p] - w[q]) * c.side[p][q] / c.total[p] * d.step;
}
// least growth of the cut, over the cavities (what p owns of a cut edge, or what is left of it) around vertex v
static double leastGrowth(const Model& m, const Owners& own, const std::vector<std::vector<int> >& inc, int p, int v, int q) {
  double best = 1e300;
  for (int f : inc[v]) {
    std::set<int> cav; bool cut = false;
    for (int y : m.e[0][f].pins) if (own[y] == p) cav.insert(y); else cut = true;
    if (!cut) continue;
    std::vector<std::array<double, 3> > uc; double U = 0, K = 0;
    for (int y : cav) {
      double u = 0, k = 0;
      for (int g : inc[y]) { bool on = false; for (int z : m.e[0][g].pins) on = on || own[z] == q; (on ? k : u)++; }
      if (y == v) { U = u; K = k; } else uc.push_back({k > 0 ? u / k : 1e300, u, k});
    }
    std::sort(uc.begin(), uc.end());
    double now = K > 0 ? U / K : 1e300;
    for (auto& x : uc) { U += x[1]; K += x[2]; if (K > 0) now = std::min(now, U / K); }
    best = std::min(best, now);
  }
  return best;
}
static void judgeStep(const Model& m, const DOpts& d, const Crit& k, const Step& s, long no, std::vector<W>* rest) {   // rest: part weight mode, what is left of the flows planned
  const Owners& own = s.before; int np = C.np;
  std::string at = strf("step %ld (criterion %d of dimension %d)", no, k.index, k.dim);
  // 1. what is moved lies on the boundary
  std::vector<char> onb(m.nv(), 0);
  for (auto& e : m.e[0]) {
    bool cut = false; for (int p : e.pins) if (own[p] != own[e.pins[0]]) cut = true;
    if (!cut) continue;
    if (m.hyper) for (int p : e.pins) onb[p] = 1; else onb[e.pins[0]] = 1;
  }
  W w = partWeights(m, own, k.dim, d.ghosts); Cut c = cutOf(m, own, d.sides);
  double imb = imbOf(w);
  if (avgOf(w) > 0 && clearlyLess(imb, k.tol)) { viol("%s migrates although the imbalance %.9g is below the tolerance %.9g", at.c_str(), imb, k.tol); return; }
  std::vector<W> doneW; for (auto& x : k.done) doneW.push_back(partWeights(m, own, x.dim, d.ghosts));
  std::vector<std::vector<int> > inc;     // per vertex its edges of type 0, if growth of the cut is limited
  if (d.growth > 0 && d.minCon <= 1) { inc.resize(m.nv()); for (size_t i = 0; i < m.e[0].size(); i++) if (m.hyper) for (int y : m.e[0][i].pins) inc[y].push_back((int)i); else inc[m.e[0][i].pins[0]].push_back((int)i); }
  for (int p = 0; p < np; p++) {
    std::set<int> to;
    for (auto& x : s.plan[p]) {
      if (!inc.empty()) {
        note("growths_judged"); double g = leastGrowth(m, own, inc, p, x.first, x.second);
        if (!(g < d.growth * (1 + EPS))) { viol("%s moves vertex %lld from %d to %d, where every cavity it is part of adds %.6g uncut edges per cut one (limit %.6g)", at.c_str(), (long long)m.vgid[x.first], p, x.second, g, d.growth); return; }
      }
      if (!onb[x.first]) { viol("%s moves vertex %lld, which lies on no cut edge of type 0", at.c_str(), (long long)m.vgid[x.first]); return; }
      to.insert(x.second);
    }
    if (d.minCon > 1) continue;
    for (int q : to) {
      note("flows_judged");
      if (c.side[p][q] <= 0) { viol("%s moves vertices from %d to %d, which share no edge of type %d", at.c_str(), p, q, d.sides); return; }
      if (rest) {
        note("planned_flows_judged");
        if (!((*rest)[p][q] > -EPS)) { viol("%s moves vertices from %d to %d, although %.9g is left of the flow planned", at.c_str(), p, q, (*rest)[p][q]); return; }
      } else if (!clearlyLess(w[q] * (1 - 4 * EPS), w[p])) { viol("%s moves vertices from %d (weight %.9g) uphill to %d (weight %.9g)", at.c_str(), p, w[p], q, w[q]); return; }
      if (m.hyper && (np > 2 || rest) && clearlyLess(k.sideTol, c.side[p][q] * (1 - EPS))) { viol("%s moves vertices from %d to %d over a side of %.9g, above the average %.9g", at.c_str(), p, q, c.side[p][q], k.sideTol); return; }
      for (size_t i = 0; i < k.done.size(); i++) {
        note("completed_judged");
        if (clearlyLess(k.done[i].bound, doneW[i][q] * (1 - EPS))) { viol("%s moves vertices to %d, whose weight %.9g in dimension %d exceeds the %.9g it was completed with", at.c_str(), q, doneW[i][q], k.done[i].dim, k.done[i].bound); return; }
      }
    }
    // how much: everything but the last cavity was chosen while less than the total was planned
    auto weightOf = [&](const std::vector<int>& v) {
      double x = 0;
      if (k.dim < 0) { for (int i : v) x += m.vw[i]; return x; }
      std::vector<char> mv(m.nv(), 0); for (int i : v) mv[i] = 1;
      for (auto& e : m.e[k.dim]) {
        bool in = true, touch = false;
        for (int y : e.pins) { in = in && own[y] == p; touch = touch || (mv[y] && (m.hyper || y == e.pins[0])); }
        if (in && touch) x += e.w;
      }
      return x;
    };
    auto may = [&](int q) { return rest ? (c.side[p][q] > 0 ? std::max(0.0, (*rest)[p][q]) * c.side[p][q] / c.total[p] : 0) : allowance(c, w, d, p, q); };
    if (s.plan[p].size() > 11) {
      double total = 0; std::vector<int> v;
      for (int q = 0; q < np; q++) if (q != p) total += may(q);
      for (size_t i = 0; i + 11 < s.plan[p].size(); i++) v.push_back(s.plan[p][i].first);
      double sent = weightOf(v);
      note("amounts_judged");
      if (clearlyLess(total * (1 + EPS), sent)) { viol("%s moves at least %.9g from %d, which may send %.9g", at.c_str(), sent, p, total); return; }
    }
  }
  // what arrives fits into the room left by the criteria completed before
  for (size_t i = 0; i < k.done.size(); i++) {
    int dim = k.done[i].dim; if (dim >= 0 && !m.hyper) continue;
    W in(np, 0);
    if (dim < 0) for (int p = 0; p < np; p++) for (auto& x : s.plan[p]) in[x.second] += m.vw[x.first];
    else {
      std::vector<int> to(m.nv(), -1); for (int p = 0; p < np; p++) for (auto& x : s.plan[p]) to[x.first] = x.second;
      for (auto& e : m.e[dim]) {
        std::set<int> on; std::set<std::pair<int, int> > move;
        for (int y : e.pins) { on.insert(own[y]); if (to[y] >= 0) move.insert({own[y], to[y]}); }
        for (auto& x : move) if (!on.count(x.second)) in[x.second] += e.w;
      }
    }
    for (int q = 0; q < np; q++) if (in[q] > 0) {
      note("arrivals_judged"); double room = std::max(0.0, k.done[i].bound - doneW[i][q]);
      if (in[q] > room + EPS * std::max(1.0, fabs(k.done[i].bound))) { viol("%s brings the weight %.9g of dimension %d to part %d, which weighs %.9g and was completed with %.9g", at.c_str(), in[q], dim, q, doneW[i][q], k.done[i].bound); return; }
    }
  }
  // what has been sent is no longer to be sent
  if (rest && k.dim < 0) for (int p = 0; p < np; p++) for (auto& x : s.plan[p]) (*rest)[p][x.second] -= m.vw[x.first];
}

// is there a cut edge that any step has to take something of?
static bool sureMove(const Model& m, const Owners& own, const DOpts& d, const Crit& k, std::string* why) {
  W w = partWeights(m, own, k.dim, d.ghosts); Cut c = cutOf(m, own, d.sides);
  std::vector<std::vector<int> > adj(m.nv());
  for (size_t i = 0; i < m.e[0].size(); i++) { if (m.hyper) { std::set<int> s(m.e[0][i].pins.begin(), m.e[0][i].pins.end()); for (int p : s) adj[p].push_back((int)i); } else adj[m.e[0][i].pins[0]].push_back((int)i); }
  for (auto& e : m.e[0]) {
    std::set<int> parts; for (int p : e.pins) parts.insert(own[p]);
    if (parts.size() < 2) continue;
    for (int p : parts) {
      if (!m.hyper && p != own[e.pins[0]]) continue;
      std::set<int> cav; for (int x : e.pins) if (own[x] == p) cav.insert(x);
      if (cav.empty() || cav.size() > 11) continue;
      std::set<int> nb; for (int x : cav) for (int f : adj[x]) for (int y : m.e[0][f].pins) if (own[y] != p) nb.insert(own[y]);
      if (nb.size() != 1) continue;
      int q = *nb.begin();
      if (c.side[p][q] <= 0 || !clearlyLess(w[q], w[p] * (1 - 1e-6)) || allowance(c, w, d, p, q) <= 1e-9) continue;
      if (m.hyper && C.np > 2 && !clearlyLess(c.side[p][q], k.sideTol)) continue;
      *why = strf("edge %lld between %d (weight %.6g) and %d (weight %.6g)", (long long)e.id, p, w[p], q, w[q]);
      return true;
    }
  }
  return false;
}

// "Completed diffusion for ... in N steps ... due to CAUSE"
static bool told(const std::string& text, int k, long& steps, std::string& cause) {
  size_t at = 0;
  for (int i = 0; i <= k; i++) { at = text.find("Completed diffusion for ", at + (i > 0)); if (at == std::string::npos) return false; }
  std::string l = text.substr(at, text.find('\n', at) - at);
  size_t x = l.find(" in "); if (x == std::string::npos || sscanf(l.c_str() + x, " in %ld steps", &steps) != 1) return false;
  x = l.find(" due to "); cause = x == std::string::npos ? "" : l.substr(x + 8);
  return true;
}

// ---- weight diffusion: the same rules, for weight handed from vertices to their neighbours
struct WStep { W vw; std::vector<std::array<double, 3> > plan; int criterion; };   // weights before; (from, to, weight)
static struct { bool on, inner; Ngraph* g; const Model* m; std::vector<WStep>* st; } WM = {false, false, NULL, NULL, NULL};
extern "C" void __real__ZN3agi6Ngraph7migrateEPNS_15WeightMigrationEPNS_15MigrationTimersE(Ngraph*, WeightMigration*, MigrationTimers*);
extern "C" void __wrap__ZN3agi6Ngraph7migrateEPNS_15WeightMigrationEPNS_15MigrationTimersE(Ngraph* g, WeightMigration* plan, MigrationTimers* mt) {
  if (WM.on && (WM.inner ? g != WM.g : g == WM.g)) {
    const Model& m = *WM.m; WStep s; s.criterion = WM.inner && C.rank == 0 ? headings(peekStdout()) : 0; std::vector<gidt> mine;
    W w(m.nv(), 0); s.vw = w; VertexIterator* it = g->begin(); GraphVertex* v;
    while ((v = g->iterate(it))) { int k = m.find(g->globalID(v)); if (k >= 0) w[k] = g->weight(v); }
    PMPI_Allreduce(w.data(), s.vw.data(), m.nv(), MPI_DOUBLE, MPI_SUM, PCU_Get_Comm());
    for (WeightMigration::iterator q = plan->begin(); q != plan->end(); q++) {
      double x = q.weight(); gidt bits; memcpy(&bits, &x, sizeof bits);
      mine.push_back(m.find(g->globalID(q.u()))); mine.push_back(m.find(g->globalID(q.v()))); mine.push_back(bits);
    }
    std::vector<gidt> all = allgatherv(mine, PCU_Get_Comm());
    for (size_t i = 0; i + 2 < all.size(); i += 3) { double x; memcpy(&x, &all[i + 2], sizeof x); s.plan.push_back({(double)(long)all[i], (double)(long)all[i + 1], x}); }
    WM.st->push_back(s);
  }
  __real__ZN3agi6Ngraph7migrateEPNS_15WeightMigrationEPNS_15MigrationTimersE(g, plan, mt);
}
static void judgeWeights(const Model& m0, const Owners& own, const std::vector<WStep>& st, double tol, double sf, int et, int maxIter) {
  Model m = m0; Cut c = cutOf(m, own, et); DOpts d; d.step = sf; int np = C.np;
  if ((long)st.size() > maxIter) { viol("weight diffusion took %zu steps, at most %d are allowed", st.size(), maxIter); return; }
  std::vector<double> h; std::set<std::pair<int, int> > adj;
  for (auto& e : m.e[0]) for (int a : e.pins) for (int b : e.pins) adj.insert({a, b});
  for (size_t s = 0; s < st.size(); s++) {
    m.vw = st[s].vw; W w = partWeights(m, own, -1, false); h.push_back(imbOf(w)); size_t z = h.size();
    std::string at = strf("step %zu of weight diffusion (edge type %d, tolerance %.3f, factor %.2f)", s + 1, et, tol, sf);
    note("weight_steps_judged");
    if (clearlyLess(h[s], tol)) { viol("%s moves weight although the imbalance is %.9g", at.c_str(), h[s]); return; }
    if (z >= 3 && clearlyLess(h[z - 3], h[z - 2]) && clearlyLess(h[z - 2], h[z - 1])) { viol("%s moves weight although the imbalance rose for the third time running", at.c_str()); return; }
    std::vector<W> flow(np, W(np, 0)); W out(m.nv(), 0);
    for (auto& x : st[s].plan) {
      int a = (int)x[0], b = (int)x[1]; if (a < 0 || b < 0) { viol("%s names a vertex that does not exist", at.c_str()); return; }
      if (x[2] < 0) { viol("%s moves the weight %g", at.c_str(), x[2]); return; }
      if (own[a] == own[b] || !adj.count({a, b})) { viol("%s moves weight from vertex %lld to %lld, which are no neighbours on different processes", at.c_str(), (long long)m.vgid[a], (long long)m.vgid[b]); return; }
      flow[own[a]][own[b]] += x[2]; out[a] += x[2];
    }
    for (int i = 0; i < m.nv(); i++) if (out[i] > m.vw[i] * (1 + 1e-9)) { viol("%s takes %g from vertex %lld, which weighs %g", at.c_str(), out[i], (long long)m.vgid[i], m.vw[i]); return; }
    for (int p = 0; p < np; p++) for (int q = 0; q < np; q++) if (flow[p][q] > 0) {
      note("weight_flows_judged");
      if (!clearlyLess(w[q] * (1 - 4 * EPS), w[p])) { viol("%s moves weight from %d (%.9g) uphill to %d (%.9g)", at.c_str(), p, w[p], q, w[q]); return; }
      double most = allowance(c, w, d, p, q);
      if (clearlyLess(most * (1 + EPS), flow[p][q])) { viol("%s moves %.9g from %d to %d, at most %.9g is allowed", at.c_str(), flow[p][q], p, q, most); return; }
    }
  }
}
// the part weight balancer: what the parts exchange before a criterion, judged as weight diffusion between
// parts, and what is then left to be sent from one part to another
static Model partModel() {
  Model p; p.hyper = p.coords = false; p.nt = 1; p.unitVW = p.unitEW[0] = false;
  for (int i = 0; i < C.np; i++) { p.vgid.push_back(i); p.vw.push_back(0); }
  p.index(); return p;
}
static bool judgeParts(const Model& m, const DOpts& d, const Crit& k, const Owners& own, const std::vector<WStep>& all, std::vector<W>& rest) {
  int np = C.np; Cut c = cutOf(m, own, d.sides); Model pm = partModel(); Owners po; std::vector<WStep> st;
  pm.vw = partWeights(m, own, k.dim, d.ghosts);
  std::set<std::pair<int, int> > nb;      // edges of no weight make neighbours as well
  for (auto& e : m.e[d.sides]) for (int a : e.pins) for (int b : e.pins) if (own[a] != own[b] && (m.hyper || a == e.pins[0])) nb.insert({own[a], own[b]});
  for (int p = 0; p < np; p++) po.push_back(p);
  for (auto& x : nb) pm.e[0].push_back({0, 1, {x.first, x.second}});
  for (auto& s : all) if (s.criterion == k.index) st.push_back(s);
  rest.assign(np, W(np, 0));
  note("part_plans_judged");
  if (!st.empty()) for (int p = 0; p < np; p++) if (!feq(st[0].vw[p], pm.vw[p], 1e-7)) { viol("criterion %d: the part weight balancer starts from the weight %.9g for part %d, which weighs %.9g in dimension %d", k.index, st[0].vw[p], p, pm.vw[p], k.dim); return false; }
  long before = C.viols; judgeWeights(pm, po, st, k.tol * .75, d.step, 0, 100);
  if (C.viols != before) return false;
  for (auto& s : st) for (auto& x : s.plan) { int p = (int)x[0], q = (int)x[1]; rest[p][q] += x[2]; rest[q][p] -= x[2]; }
  for (auto& r : rest) for (double& x : r) if (x <= 0) x = -1;   // nothing is to be sent this way
  return true;
}

static void judge(const Model& m, const DOpts& d, const Run& run, const std::vector<WStep>& inner) {
  const std::vector<Step>& full = run.steps; int n = run.criteria;
  if ((long)full.size() > d.maxIter) { viol("%zu steps were taken, at most %d are allowed", full.size(), d.maxIter); return; }
  if (n < (int)d.prio.size() && (long)full.size() < d.maxIter) { viol("%d of %zu criteria were looked at although only %zu of %d steps were used", n, d.prio.size(), full.size(), d.maxIter); return; }
  std::vector<Done> done; size_t from = 0;
  for (int k = 0; k < n; k++) {
    size_t to = from; while (to < full.size() && full[to].criterion == k) to++;
    const Owners& start = from < full.size() ? full[from].before : run.end;
    const Owners& end = to < full.size() ? full[to].before : run.end;
    Crit c; c.dim = d.prio[k]; c.index = k; c.tol = k < (int)d.tol.size() ? d.tol[k] : 1.1; c.sideTol = cutOf(m, start, d.sides).tol; c.done = done;
    note("criteria_judged"); if (to - from >= 50) note("long_criteria"); if (to - from == 100) note("criteria_of_100_steps");
    std::vector<W> rest; if (d.partW && !judgeParts(m, d, c, start, inner, rest)) return;
    if ((long)(to - from) > d.maxPerType) { viol("criterion %d took %zu steps, at most %d are allowed", k, to - from, d.maxPerType); return; }
    std::vector<double> h;
    for (size_t s = from; s < to; s++) {
      long before = C.viols; judgeStep(m, d, c, full[s], s + 1, d.partW ? &rest : NULL); if (C.viols != before) return;
      h.push_back(imbOf(partWeights(m, full[s].before, c.dim, d.ghosts)));
      note("steps_judged");
      size_t z = h.size();
      if (z >= 3 && clearlyLess(h[z - 3], h[z - 2]) && clearlyLess(h[z - 2], h[z - 1])) { viol("step %zu migrates although the imbalance rose for the third time running (%.6g %.6g %.6g)", s + 1, h[z - 3], h[z - 2], h[z - 1]); return; }
    }
    W w = partWeights(m, end, c.dim, d.ghosts);
    h.push_back(imbOf(w)); size_t z = h.size(); std::string why;
    bool limit = (long)(to - from) >= d.maxPerType || (long)to >= d.maxIter;
    bool falling = z < 3 || (clearlyLess(h[z - 2], h[z - 3]) && clearlyLess(h[z - 1], h[z - 2]));
    bool defined = avgOf(w) > 0, above = defined && clearlyLess(c.tol, h[z - 1]);   // no weight: no imbalance
    if (k == 0 && !d.partW && d.growth <= 0 && d.minCon <= 1 && !limit && falling && above) {
      note("stops_judged");
      if (sureMove(m, end, d, c, &why)) { viol("balancing dimension %d stopped after %zu steps at imbalance %.6g (tolerance %.6g) although %s could be used", c.dim, to - from, h[z - 1], c.tol, why.c_str()); return; }
    }
    // what the user is told
    long steps = -1; std::string cause;
    if (told(run.text, k, steps, cause)) {
      note("reports_judged");
      if (steps != (long)(to - from)) { viol("criterion %d reports %ld steps, %zu were taken", k, steps, to - from); return; }
      bool bad = false;
      if (cause.find("target tolerance reached") != std::string::npos) { bad = above; note("told_tolerance"); }
      else if (cause.find("stagnation") != std::string::npos) { bad = z < 3 || falling; note("told_stagnation"); }
      else if (cause.find("max iterations") != std::string::npos) { bad = !limit; note("told_limit"); }
      else if (cause.find("nothing was migrated") != std::string::npos) { bad = defined && clearlyLess(h[z - 1], c.tol); note("told_nothing"); }
      if (bad) { viol("criterion %d ended after %zu steps (limits %d, %d) at imbalance %.6g (tolerance %.6g) '%s'", k, to - from, d.maxPerType, d.maxIter, h[z - 1], c.tol, cause.c_str()); return; }
    }
    done.push_back({c.dim, std::max(maxOf(w), avgOf(w) * c.tol)});
    from = to;
  }
}

static void weights(Rng& r) {
  GenOpts o; o.maxV = genSize(r, 60, 150, 400); o.minV = o.maxV / 2; o.maxT = 3; o.zeroDeg = false; o.sym = 1; o.mode = r.chance(0.7) ? 1 : 0; o.multiEdges = r.chance(0.3);
  if (r.chance(0.6)) o.topo = r.chance(0.5) ? T_GRIDN : T_GRIDS;
  Model m = genModel(r, o); Owners own = genOwners(r, m, C.np);
  double big = r.chance(0.7) ? 100 * (1 + r.below(20)) : 1; for (double& x : m.vw) x *= big;
  m.unitVW = false;
  double tol = 1.0 + 0.02 * r.range(0, 20), sf = r.chance(0.3) ? 1.0 : 0.05 * r.range(1, 10); int et = r.chance(0.6) ? 0 : r.below(m.nt), mi = r.range(1, 40);
  caseInfo("weights %s %s tol=%.2f sf=%.2f et=%d it=%d", m.desc.c_str(), ownDesc(own, C.np).c_str(), tol, sf, et, mi);
  Build b = genBuild(r); b.extraGhosts = false; b.defVW = false;
  Ngraph* g = build(m, own, b); std::vector<WStep> st;
  WM.on = true; WM.inner = false; WM.g = g; WM.m = &m; WM.st = &st;
  engpar::WeightInput* in = engpar::createWeightInput(g, tol, sf, et); in->maxIterations = mi;
  engpar::balanceWeights(in, -1);
  WM.on = false;
  destroyGraph(g);
  if (C.rank == 0 && C.np > 1) judgeWeights(m, own, st, tol, sf, et, mi);
  if (st.empty()) trivialCase();
}

static void run(Rng& r) {
  if (r.chance(0.2)) { weights(r); return; }
  bool lng = r.chance(0.06); GenOpts o; o.maxV = lng ? 300 : genSize(r, 80, 300, 700); o.minV = o.maxV / 2; o.maxT = 4; o.mode = r.chance(0.75) ? 1 : 0; o.zeroDeg = false; o.sym = 1; o.multiEdges = r.chance(0.3);
  int tk = r.below(10); o.topo = tk < 3 ? T_GRIDN : tk < 6 ? T_GRIDS : tk < 7 ? T_RING : tk < 8 ? T_LINE : -1;
  Model m = genModel(r, o);
  Owners own = genOwners(r, m, C.np, r.chance(0.4) ? 1 : r.chance(0.6) ? 2 : -1);
  bool cutrow = r.chance(0.5) || lng; double f = lng ? 0.8 : 0.1 + 0.6 * r.unit();
  if (cutrow) { int n = m.nv(); for (int i = 0; i < n; i++) own[i] = C.np == 1 ? 0 : i < f * n ? 0 : 1 + (int)((i - f * n) * (C.np - 1) / (n - f * n + 1)); }
  int rot = r.below(C.np); for (int& x : own) x = (x + rot) % C.np;
  DOpts d = genDiffusive(r, m); d.partW = r.chance(0.2); d.verbosity = r.chance(0.5) ? 2 : r.below(2); if (d.prio.size() > 1 && r.chance(0.25)) d.ghosts = true;
  if (r.chance(0.6)) { d.minCon = 1; d.growth = 0; d.maxIter = r.range(5, 60); d.maxPerType = r.range(3, 25); }
  else if (r.chance(0.4)) { d.minCon = 1; d.growth = 0.25 * r.range(1, 8); }
  if (lng) { d.prio.resize(1); d.tol.resize(1); d.prio[0] = -1; d.lazy = true; d.maxIter = 1000; d.maxPerType = 100; d.minCon = 1; d.growth = 0; d.partW = false; d.step = 0.02 + 0.03 * r.unit(); for (double& t : d.tol) t = 1.01; d.verbosity = 0; }   // as many steps as are allowed if nothing is said
  caseInfo("%s %s %s", m.desc.c_str(), ownDesc(own, C.np).c_str(), d.desc().c_str());
  Build b = genBuild(r); b.extraGhosts = false;
  Run run; Ngraph* g = build(m, own, b); std::vector<WStep> inner; Model pm = partModel();
  if (d.partW) { WM.on = WM.inner = true; WM.g = g; WM.m = &pm; WM.st = &inner; }
  runBalance(g, m, own, d, run); WM.on = false; destroyGraph(g);
  if (C.rank == 0 && C.np > 1) {
    if (run.attributed) judge(m, d, run, inner);
    else note("not_attributed");
  }
  int any = !run.steps.empty(); PMPI_Bcast(&any, 1, MPI_INT, 0, MPI_COMM_WORLD);
  if (!any) trivialCase();
}
MODULE("P08", run, NULL, NULL);
