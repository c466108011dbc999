#include "model.h"
#include <algorithm>
#include <sstream>
#include "agiMigration.h"
using namespace agi;

int self() { return PCU_Comm_Self(); }
int peers() { return PCU_Comm_Peers(); }

int genSize(Rng& r, int small, int med, int large) {
  int k = r.below(100);
  if (k < 55) return r.range(1, small);
  if (k < 97) return r.range(small, med);
  return r.range(med, large);
}

bool genBig(GenOpts& o, int every) {
  if (C.caseIdx % every != 37) return false;
  bool huge = C.np <= 2 && mix(C.caseSeed, 4) % 2;       // beyond unsigned 16 bits on one process, too
  o.minV = huge ? 66000 : 20000; o.maxV = huge ? 72000 : 40000; o.maxT = huge ? 1 : 2; o.topo = (int[]){T_RING, T_GRIDN, T_GRIDS, T_RANDOM}[mix(C.caseSeed, 3) % 4]; note("big"); setCaseLimit(120); return true;
}

static double genW(Rng& r, int kind) {
  switch (kind) {
    case 0: return 1;
    case 1: return r.range(1, 9);
    case 2: return 0.125 * r.range(1, 64) + r.unit() * 0.1;
    case 3: return r.chance(0.3) ? 0 : r.range(1, 5);
    default: return r.chance(0.1) ? r.range(50, 1000) : r.range(1, 3) + 0.5;
  }
}

static void genTopo(Rng& r, const Model& m, const GenOpts& o, int topo, std::vector<std::vector<int> >& out) {
  int n = m.nv();
  auto add = [&](std::vector<int> p) { out.push_back(p); };
  int w = std::max(1, (int)std::floor(std::sqrt((double)n)));
  if (m.hyper) {
    switch (topo) {
      case T_RING: { int k = r.range(2, 4); for (int i = 0; i < n; i++) { std::vector<int> p; for (int j = 0; j < k && j < n; j++) p.push_back((i + j) % n); add(p); } break; }
      case T_LINE: for (int i = 0; i + 1 < n; i++) add({i, i + 1}); break;
      case T_GRIDN: {      // hyperedge = grid node, pins = up to four cells
        int h = (n + w - 1) / w;
        for (int y = 0; y <= h; y++) for (int x = 0; x <= w; x++) {
          std::vector<int> p;
          for (int dy = -1; dy <= 0; dy++) for (int dx = -1; dx <= 0; dx++) {
            int cx = x + dx, cy = y + dy; if (cx < 0 || cy < 0 || cx >= w || cy >= h) continue;
            int c = cy * w + cx; if (c < n) p.push_back(c);
          }
          if (!p.empty()) add(p);
        } break; }
      case T_GRIDS: for (int i = 0; i < n; i++) { if ((i % w) + 1 < w && i + 1 < n) add({i, i + 1}); if (i + w < n) add({i, i + w}); } break;
      case T_RANDOM: { int ne = r.range(0, 2 * n); for (int k = 0; k < ne; k++) {
          int d = r.range(o.zeroDeg && r.chance(0.1) ? 0 : 1, std::min(n, o.maxPins)); std::vector<int> p; std::set<int> s;
          while ((int)p.size() < d) { int v = r.below(n); if (s.insert(v).second) p.push_back(v); } add(p); } break; }
      case T_STAR: { std::vector<int> p; for (int i = 0; i < n; i++) p.push_back(i); r.shuffle(p); add(p); for (int i = 1; i < n; i += 2) add({0, i}); break; }
      case T_BLOCKS: { int b = r.range(2, 6); for (int i = 0; i + 1 < n; i++) if ((i + 1) % b) add({i, i + 1}); break; }
      case T_SINGLE: for (int i = 0; i < n; i += r.range(1, 3)) add({i}); break;
      case T_HUGE: { int ne = r.range(1, 3); for (int k = 0; k < ne; k++) { std::vector<int> p; for (int i = 0; i < n; i++) if (r.chance(0.7)) p.push_back(i); if (!p.empty()) { r.shuffle(p); add(p); } } break; }
      default: break;
    }
  } else {
    auto both = [&](int a, int b) { add({a, b}); add({b, a}); };
    switch (topo) {
      case T_RING: for (int i = 0; i < n && n > 1; i++) both(i, (i + 1) % n); break;
      case T_LINE: for (int i = 0; i + 1 < n; i++) both(i, i + 1); break;
      case T_GRIDN: case T_GRIDS: for (int i = 0; i < n; i++) { if ((i % w) + 1 < w && i + 1 < n) both(i, i + 1); if (i + w < n) both(i, i + w); } break;
      case T_STAR: case T_HUGE: for (int i = 1; i < n; i++) both(0, i); break;
      case T_BLOCKS: { int b = r.range(2, 6); for (int i = 0; i + 1 < n; i++) if ((i + 1) % b) both(i, i + 1); break; }
      case T_RANDOM: case T_SINGLE: { int ne = r.range(0, 3 * n); for (int k = 0; k < ne; k++) { int a = r.below(n), b = r.below(n); if (a == b && !o.selfLoops) continue; if (o.sym == 1) both(a, b); else add({a, b}); } break; }
      default: break;
    }
    if (o.sym != 1 && r.chance(0.5)) {   // thin out to a truly directed graph
      std::vector<std::vector<int> > k; for (auto& p : out) if (r.chance(0.7)) k.push_back(p); out.swap(k);
    }
    if (!o.multiEdges) {
      std::set<std::pair<int, int> > s; std::vector<std::vector<int> > k;
      for (auto& p : out) if (s.insert({p[0], p[1]}).second) k.push_back(p);
      out.swap(k);
    } else if (o.sym != 1 && r.chance(0.3) && !out.empty()) {
      int k = r.range(1, 3); while (k--) { std::vector<int> c = out[r.below((int)out.size())]; out.push_back(c); }
    }
    if (!o.selfLoops) { std::vector<std::vector<int> > k; for (auto& p : out) if (p[0] != p[1]) k.push_back(p); out.swap(k); }
  }
}

Model genModel(Rng& r, const GenOpts& o) {
  Model m;
  static const char* tn[] = {"ring", "line", "gridN", "gridS", "random", "star", "blocks", "empty", "single", "huge"};
  m.hyper = o.mode < 0 ? r.chance(0.6) : o.mode == 1;
  int n = r.range(o.minV, o.maxV);
  m.nt = r.chance(0.4) ? o.minT : r.range(o.minT, std::min(o.maxT, r.chance(0.2) ? 7 : 3));
  if (m.nt < o.minT) m.nt = o.minT;
  int idk = o.ids >= 0 ? o.ids : r.below(5);
  std::set<gidt> used;
  gidt base = idk == 0 ? 0 : idk == 2 ? r.range(1, 1000) : 0;
  for (int i = 0; i < n; i++) {
    gidt g;
    if (idk == 0 || idk == 2) g = base + i;
    else do { g = idk == 1 ? (gidt)(r.next() % 2147483000ull) : idk == 3 ? (gidt)(r.next() >> 2) : (gidt)(r.next() % (uint64_t)(4 * n + 8)); } while (used.count(g));
    used.insert(g); m.vgid.push_back(g);
  }
  int wk = o.weights >= 0 ? o.weights : r.below(5);
  m.unitVW = wk == 0;
  for (int i = 0; i < n; i++) m.vw.push_back(genW(r, wk));
  m.coords = o.coords < 0 ? r.chance(0.3) : o.coords;
  int w = std::max(1, (int)std::sqrt((double)n));
  for (int i = 0; i < n; i++) m.xyz.push_back({{(double)(i % w) + 0.25, (double)(i / w) - 3.5, r.unit() * 4}});
  std::string d = strf("%s n=%d nt=%d ids=%d w=%d%s", m.hyper ? "hyper" : "trad", n, m.nt, idk, wk, m.coords ? " xyz" : "");
  for (int t = 0; t < m.nt; t++) {
    int topo = o.topo >= 0 ? (t == 0 ? o.topo : r.below(T_NTOPO)) : r.below(T_NTOPO);
    if (n > (m.hyper ? 400 : 1200) && (topo == T_STAR || topo == T_HUGE)) topo = T_RANDOM;   // neighbours grow with the square
    GenOpts oo = o;
    if (oo.sym < 0) oo.sym = r.chance(0.4) ? 1 : 0;
    std::vector<std::vector<int> > p;
    genTopo(r, m, oo, topo, p);
    int ewk = o.weights >= 0 ? o.weights : r.below(5);
    m.unitEW[t] = ewk == 0;
    int eidk = o.ids == 0 ? 0 : o.ids == 1 ? 1 : r.below(4);
    std::set<gidt> eu;
    for (size_t i = 0; i < p.size(); i++) {
      MEdge e; e.pins = p[i];
      do { e.id = eidk == 0 ? (gidt)i : eidk == 1 ? (gidt)(r.next() % 2147483000ull) : eidk == 2 ? (gidt)(r.next() >> 2) : (gidt)(7 + 3 * i); } while (eu.count(e.id));
      eu.insert(e.id);
      e.w = genW(r, ewk);
      m.e[t].push_back(e);
    }
    if (!m.hyper && oo.sym == 1) {     // same weight in both directions
      std::map<std::pair<int, int>, double> ww;
      for (auto& e : m.e[t]) { auto k = std::minmax(e.pins[0], e.pins[1]); auto it = ww.find(k); if (it == ww.end()) ww[k] = e.w; else e.w = it->second; }
    }
    d += strf(" %s:%zu/%d", tn[topo], m.e[t].size(), ewk);
  }
  m.desc = d;
  m.index();
  return m;
}

Owners genOwners(Rng& r, const Model& m, int np, int kind) {
  int n = m.nv();
  Owners o(n, 0);
  if (kind < 0) kind = r.below(6);
  if (kind == 4 && r.chance(0.6)) kind = 0;
  int off = r.below(np);
  switch (kind) {
    case 0: for (auto& x : o) x = r.below(np); break;
    case 1: for (int i = 0; i < n; i++) o[i] = (int)((long)i * np / std::max(1, n)); break;
    case 2: for (auto& x : o) x = r.chance(0.75) ? off : r.below(np); break;
    case 3: { std::vector<int> use; for (int i = 0; i < np; i++) if (r.chance(0.5)) use.push_back(i); if (use.empty()) use.push_back(off);
              for (auto& x : o) x = use[r.below((int)use.size())]; break; }
    case 4: for (auto& x : o) x = off; break;
    default: for (int i = 0; i < n; i++) o[i] = (i + off) % np;
  }
  return o;
}
std::string ownDesc(const Owners& o, int np) {
  std::vector<int> c(np, 0); for (int x : o) if (x >= 0 && x < np) c[x]++;
  std::string s = "parts="; for (int i = 0; i < np; i++) s += strf(i ? ",%d" : "%d", c[i]);
  s += strf("#%08x", (unsigned)hashBytes(o.data(), o.size() * sizeof(int)));
  return s;
}
std::vector<int> heldEdges(const Model& m, const Owners& own, int t, int rank) {
  std::vector<int> h;
  for (size_t i = 0; i < m.e[t].size(); i++) {
    const MEdge& e = m.e[t][i];
    if (m.hyper) { for (int p : e.pins) if (own[p] == rank) { h.push_back((int)i); break; } }
    else if (own[e.pins[0]] == rank) h.push_back((int)i);
  }
  return h;
}
bool oneCallOk(const Model& m) { return m.nt == 1 && m.unitEW[0]; }

Build genBuild(Rng& r) {
  Build b; b.path = r.below(B_NPATH); b.defVW = r.chance(0.5); b.defEW = r.chance(0.5); b.extraGhosts = r.chance(0.2);
  b.seed = r.next(); b.shuffle = r.chance(0.7); return b;
}
Ngraph* build(const Model& m, const Owners& own, Rng& r) { return build(m, own, genBuild(r)); }

Ngraph* build(const Model& m, const Owners& own, const Build& b, Ngraph* g, int) {
  int me = self();
  Rng lr(mix(b.seed, me + 77));
  if (!g) g = createEmptyGraph();
  std::vector<int> loc;
  for (int i = 0; i < m.nv(); i++) if (own[i] == me) loc.push_back(i);
  if (b.shuffle) lr.shuffle(loc);
  bool partial = (b.seed >> 33) & 1;   // unit weights at the end are left to the library
  if (partial) std::stable_partition(loc.begin(), loc.end(), [&](int i) { return m.vw[i] != 1; });
  std::vector<gidt> verts; std::vector<wgt_t> wts;
  for (int i : loc) { verts.push_back(m.vgid[i]); wts.push_back(m.vw[i]); }
  bool defVW = b.defVW && m.unitVW;
  if (defVW) wts.clear();
  std::unordered_map<gidt, part_t> owns;
  struct ET { std::vector<gidt> ids, pins; std::vector<lid_t> degs; std::vector<wgt_t> w; };
  std::vector<ET> et(m.nt);
  for (int t = 0; t < m.nt; t++) {
    std::vector<int> held = heldEdges(m, own, t, me);
    if (m.hyper) for (size_t i = 0; i < m.e[t].size(); i++)
      if (m.e[t][i].pins.empty() && (int)(mix(i + 1, t + 5) % (uint64_t)peers()) == me) held.push_back((int)i);
    if (b.shuffle) lr.shuffle(held);
    for (int i : held) {
      const MEdge& e = m.e[t][i];
      et[t].ids.push_back(e.id); et[t].degs.push_back((lid_t)e.pins.size()); et[t].w.push_back(e.w);
      for (int p : e.pins) { et[t].pins.push_back(m.vgid[p]); if (own[p] != me) owns[m.vgid[p]] = own[p]; }
    }
    if (b.defEW && m.unitEW[t]) et[t].w.clear();
  }
  int path = b.path;
  if (path == B_ONE && !oneCallOk(m)) path = B_VEC;
  // the array of ghosts may mention local vertices; it says so in the code ("lid<0: continue")
  auto ghostsVec = [&] { g->constructGhosts(owns); };
  auto ghostsArr = [&] {
    std::vector<gidt> gi; std::vector<part_t> go;
    for (auto& p : owns) { gi.push_back(p.first); go.push_back(p.second); }
    if (b.extraGhosts) for (size_t i = 0; i < verts.size() && i < 2; i++) { gi.push_back(verts[i]); go.push_back(me); }
    gi.reserve(1); go.reserve(1);
    g->constructGhosts((lid_t)gi.size(), gi.data(), go.data());
  };
  auto edgesVec = [&](int t) { agi::etype k = g->constructEdges(et[t].ids, et[t].degs, et[t].pins, et[t].w); if (k != t) viol("constructEdges returned type %d for the %d-th type", k, t); };
  auto edgesArr = [&](int t) {
    ET& x = et[t]; bool def = x.w.empty() && (b.defEW && m.unitEW[t]);
    x.ids.reserve(1); x.degs.reserve(1); x.pins.reserve(1); x.w.reserve(1);
    agi::etype k = g->constructEdges((gidt)x.ids.size(), x.ids.data(), x.degs.data(), x.pins.data(), def ? NULL : x.w.data());
    if (k != t) viol("constructEdges(array) returned type %d for the %d-th type", k, t);
  };
  auto trim = [&] { while (wts.size() && wts.back() == 1) wts.pop_back(); };
  if (path == B_ONE) {
    if (partial) trim();
    g->constructGraph(m.hyper, verts, wts, et[0].ids, et[0].degs, et[0].pins, owns);
  } else if (path == B_VEC) {
    if (partial) trim();
    g->constructVerts(m.hyper, verts, wts);
    for (int t = 0; t < m.nt; t++) edgesVec(t);
    ghostsVec();
  } else {
    verts.reserve(1); wts.reserve(1);
    bool mixv = path == B_MIX;
    if (mixv && (b.seed & 1)) { if (partial) trim(); g->constructVerts(m.hyper, verts, wts); }
    else g->constructVerts(m.hyper, (lid_t)verts.size(), verts.data(), defVW ? NULL : wts.data());
    for (int t = 0; t < m.nt; t++) if (mixv && ((b.seed >> (1 + t)) & 1)) edgesVec(t); else edgesArr(t);
    if (mixv && ((b.seed >> 20) & 1)) ghostsVec(); else ghostsArr();
  }
  if (((b.seed >> 40) & 7) == 0) { if ((b.seed >> 43) & 1) ghostsVec(); else ghostsArr(); }     // told once more
  if (m.coords) {
    std::vector<std::array<double, 3> > c(loc.size() + 1);
    for (size_t i = 0; i < loc.size(); i++) c[i] = m.xyz[loc[i]];
    g->setCoords(reinterpret_cast<coord_t*>(c.data()));
  }
  return g;
}

std::vector<gidt> allgatherv(const std::vector<gidt>& mine, MPI_Comm c, std::vector<int>* counts) {
  int np; PMPI_Comm_size(c, &np);
  int n = (int)mine.size(); std::vector<int> cn(np), dp(np);
  PMPI_Allgather(&n, 1, MPI_INT, cn.data(), 1, MPI_INT, c);
  int tot = 0; for (int i = 0; i < np; i++) { dp[i] = tot; tot += cn[i]; }
  std::vector<gidt> all(tot + 1);
  PMPI_Allgatherv(mine.data(), n, MPI_INT64_T, all.data(), cn.data(), dp.data(), MPI_INT64_T, c);
  all.resize(tot);
  if (counts) *counts = cn;
  return all;
}

bool gatherOwners(Ngraph* g, const Model& m, Owners& own, MPI_Comm comm, const char* when) {
  std::vector<gidt> mine; bool ok = true;
  VertexIterator* it = g->begin(); GraphVertex* v; long guard = 0;
  while ((v = g->iterate(it))) {
    mine.push_back(g->globalID(v));
    if (++guard > (long)m.nv() + 1000) { viol("%s: vertex walk does not end", when); ok = false; break; }
  }
  std::vector<int> cn; std::vector<gidt> all = allgatherv(mine, comm, &cn);
  own.assign(m.nv(), -1);
  int me; PMPI_Comm_rank(comm, &me);
  size_t k = 0;
  for (int p = 0; p < (int)cn.size(); p++) for (int i = 0; i < cn[p]; i++, k++) {
    int x = m.find(all[k]);
    if (x < 0) { if (!me) viol("%s: part %d owns vertex %lld which is not in the graph", when, p, (long long)all[k]); ok = false; continue; }
    if (own[x] >= 0) { if (!me) viol("%s: vertex %lld is owned by parts %d and %d", when, (long long)all[k], own[x], p); ok = false; continue; }
    own[x] = p;
  }
  for (int i = 0; i < m.nv(); i++) if (own[i] < 0) { if (!me) viol("%s: vertex %lld is owned by no part", when, (long long)m.vgid[i]); ok = false; break; }
  return allOk(ok, comm);
}

#define BAD(...) do { ok = false; viol(__VA_ARGS__); } while (0)

bool checkDistributed(Ngraph* g, const Model& m, const Owners& own, const CheckOpts& o) {
  bool ok = true;
  const char* wh = o.when;
  int me, np; PMPI_Comm_rank(o.comm, &me); PMPI_Comm_size(o.comm, &np);
  if (PCU_Comm_Self() != me || PCU_Comm_Peers() != np) BAD("%s: rank/size of the library is %d/%d, expected %d/%d", wh, PCU_Comm_Self(), PCU_Comm_Peers(), me, np);
  note("state_checks");
  if (g->isHyper() != m.hyper) BAD("%s: isHyper=%d, graph is %s", wh, (int)g->isHyper(), m.hyper ? "hyper" : "traditional");
  if (g->numEdgeTypes() != m.nt) { BAD("%s: %d edge types, expected %d", wh, g->numEdgeTypes(), m.nt); return allOk(false, o.comm); }
  // ---- local vertices
  int nloc = 0; for (int x : own) if (x == me) nloc++;
  if (g->numLocalVtxs() != nloc) BAD("%s: numLocalVtxs=%d, expected %d", wh, (int)g->numLocalVtxs(), nloc);
  if (o.counts && g->numGlobalVtxs() != m.nv()) BAD("%s: numGlobalVtxs=%ld, expected %d", wh, (long)g->numGlobalVtxs(), m.nv());
  if (nloc && g->hasCoords() != m.coords) BAD("%s: hasCoords=%d, expected %d", wh, (int)g->hasCoords(), (int)m.coords);
  if (!ok) return allOk(false, o.comm);
  std::vector<GraphVertex*> handle(m.nv(), (GraphVertex*)NULL);
  std::vector<char> lidSeen(g->numTotalVtxs() + 1, 0);
  VertexIterator* vit = g->begin(); GraphVertex* v; long cnt = 0;
  while ((v = g->iterate(vit))) {
    if (++cnt > nloc) { BAD("%s: vertex walk yields more than %d vertices", wh, nloc); break; }
    gidt id = g->globalID(v); int x = m.find(id);
    if (x < 0) { BAD("%s: unknown local vertex %lld", wh, (long long)id); continue; }
    if (own[x] != me) { BAD("%s: vertex %lld is here but belongs to part %d", wh, (long long)id, own[x]); continue; }
    if (handle[x]) { BAD("%s: vertex %lld twice on one part", wh, (long long)id); continue; }
    handle[x] = v;
    int l = g->localID(v);
    if (l < 0 || l >= nloc || lidSeen[l]) BAD("%s: local id %d of vertex %lld out of range or repeated", wh, l, (long long)id); else lidSeen[l] = 1;
    if (!feq(g->weight(v), m.vw[x])) BAD("%s: weight of vertex %lld is %.17g, expected %.17g", wh, (long long)id, g->weight(v), m.vw[x]);
    if (g->owner(v) != me) BAD("%s: owner of local vertex %lld is %d", wh, (long long)id, g->owner(v));
    if (m.coords && g->hasCoords()) { const coord_t& c = g->coord(v); for (int k = 0; k < 3; k++) if (c[k] != m.xyz[x][k]) { BAD("%s: coordinate %d of vertex %lld is %g, expected %g", wh, k, (long long)id, c[k], m.xyz[x][k]); break; } }
    if (!g->isEqual(g->findGID(id), v)) BAD("%s: lookup of vertex id %lld gives another vertex", wh, (long long)id);
  }
  if (cnt != nloc) BAD("%s: vertex walk yields %ld of %d vertices", wh, cnt, nloc);
  note("vertices_compared", cnt);
  // ---- expected ghosts
  std::vector<std::vector<int> > held(m.nt);
  std::vector<char> ghost(m.nv(), 0); int ng = 0;
  for (int t = 0; t < m.nt; t++) {
    held[t] = heldEdges(m, own, t, me);
    for (int i : held[t]) for (int p : m.e[t][i].pins) if (own[p] != me && !ghost[p]) { ghost[p] = 1; ng++; }
  }
  if (o.ghosts) { std::fill(ghost.begin(), ghost.end(), 0); for (int p : *o.ghosts) ghost[p] = 1; ng = (int)o.ghosts->size(); }
  if (g->numGhostVtxs() != ng) BAD("%s: numGhostVtxs=%d, expected %d", wh, (int)g->numGhostVtxs(), ng);
  if (g->numTotalVtxs() != nloc + g->numGhostVtxs()) BAD("%s: numTotalVtxs inconsistent", wh);
  GhostIterator* git = g->beginGhosts(); long gc = 0;
  while ((v = g->iterate(git))) {
    if (++gc > (long)g->numGhostVtxs()) { BAD("%s: ghost walk yields too many", wh); break; }
    gidt id = g->globalID(v); int x = m.find(id);
    if (x < 0) { BAD("%s: unknown ghost vertex %lld", wh, (long long)id); continue; }
    if (!ghost[x]) { BAD("%s: vertex %lld is a ghost here but is no off-part end of a local edge", wh, (long long)id); continue; }
    if (handle[x]) { BAD("%s: ghost %lld appears twice or is also local", wh, (long long)id); continue; }
    handle[x] = v;
    int l = g->localID(v);
    if (l < nloc || l >= g->numTotalVtxs() || lidSeen[l]) BAD("%s: local id %d of ghost %lld out of range or repeated", wh, l, (long long)id); else lidSeen[l] = 1;
    if (g->owner(v) != own[x]) BAD("%s: ghost %lld owned by part %d, reported owner %d", wh, (long long)id, own[x], g->owner(v));
    if (o.ghostW && !feq(g->weight(v), m.vw[x])) BAD("%s: weight of ghost %lld is %.17g, its owner has %.17g", wh, (long long)id, g->weight(v), m.vw[x]);
    if (!g->isEqual(g->findGID(id), v)) BAD("%s: lookup of ghost id %lld gives another vertex", wh, (long long)id);
  }
  if (gc != ng) BAD("%s: ghost walk yields %ld, expected %d", wh, gc, ng);
  note("ghosts_compared", gc);
  if (!ok) return allOk(false, o.comm);
  auto vix = [&](GraphVertex* x) { return x ? m.find(g->globalID(x)) : -1; };
  // ---- edges
  for (int t = 0; t < m.nt; t++) {
    const std::vector<MEdge>& E = m.e[t];
    if (m.hyper) {
      std::unordered_map<gidt, int> eix; for (size_t i = 0; i < E.size(); i++) eix[E[i].id] = (int)i;
      std::vector<int> seen(E.size(), 0), zero(E.size() + 1, 0);
      long npins = 0, ne = 0;
      std::vector<char> isHeld(E.size(), 0); for (int i : held[t]) isHeld[i] = 1;
      EdgeIterator* eit = g->begin(t); GraphEdge* ed;
      std::vector<char> elid(g->numLocalEdges(t) + 1, 0);
      while ((ed = g->iterate(eit))) {
        if (++ne > (long)E.size() + 1) { BAD("%s: walk over edges of type %d does not end", wh, t); break; }
        gidt id = g->globalID(ed);
        auto f = eix.find(id);
        if (f == eix.end()) { BAD("%s: unknown edge %lld of type %d", wh, (long long)id, t); continue; }
        int k = f->second; const MEdge& e = E[k];
        if (seen[k]++) { BAD("%s: edge %lld of type %d is on this part twice", wh, (long long)id, t); continue; }
        if (!isHeld[k] && !e.pins.empty()) { BAD("%s: edge %lld of type %d is on a part that owns none of its pins", wh, (long long)id, t); continue; }
        if (e.pins.empty()) zero[k] = 1;
        int l = g->localID(ed);
        if (l < 0 || l >= (int)g->numLocalEdges(t) || elid[l]) BAD("%s: local id %d of edge %lld type %d out of range or repeated", wh, l, (long long)id, t); else elid[l] = 1;
        if (!feq(g->weight(ed), e.w)) BAD("%s: weight of edge %lld type %d is %.17g, expected %.17g", wh, (long long)id, t, g->weight(ed), e.w);
        if (g->degree(ed) != (lid_t)e.pins.size()) { BAD("%s: degree of edge %lld type %d is %d, expected %zu", wh, (long long)id, t, (int)g->degree(ed), e.pins.size()); continue; }
        std::vector<int> pv; PinIterator* pit = g->pins(ed); GraphVertex* p;
        while ((p = g->iterate(pit))) { pv.push_back(vix(p)); if (pv.size() > e.pins.size()) break; }
        g->destroy(pit);
        std::vector<int> ex = e.pins;
        if (!o.order) { std::sort(pv.begin(), pv.end()); std::sort(ex.begin(), ex.end()); }
        if (pv != ex) { BAD("%s: pins of edge %lld type %d differ (%zu listed, %zu expected)", wh, (long long)id, t, pv.size(), ex.size()); continue; }
        npins += pv.size();
        if (o.residence) {
          Peers exr; for (int q : e.pins) exr.insert(own[q]);
          Peers res; g->getResidence(ed, res);
          if (res != exr) BAD("%s: residence of edge %lld type %d has %zu parts, expected %zu (or other parts)", wh, (long long)id, t, res.size(), exr.size());
          for (int q = 0; q < np; q++) if (g->isResidentOn(ed, q) != (exr.count(q) > 0)) { BAD("%s: isResidentOn(edge %lld type %d, %d) wrong", wh, (long long)id, t, q); break; }
          if (g->isCut(ed) != (exr.size() > 1)) BAD("%s: isCut(edge %lld type %d) wrong", wh, (long long)id, t);
        }
      }
      g->destroy(eit);
      for (int i : held[t]) if (!seen[i]) { BAD("%s: edge %lld of type %d is missing on a part that owns one of its pins", wh, (long long)E[i].id, t); break; }
      // edges without pins: once over all parts
      std::vector<int> zall(E.size() + 1, 0);
      PMPI_Allreduce(zero.data(), zall.data(), (int)zero.size(), MPI_INT, MPI_SUM, o.comm);
      for (size_t i = 0; i < E.size(); i++) if (E[i].pins.empty() && zall[i] != 1) { if (!me) viol("%s: pinless edge %lld of type %d is on %d parts", wh, (long long)E[i].id, t, zall[i]); ok = false; }
      if ((long)g->numLocalEdges(t) != ne) BAD("%s: numLocalEdges(%d)=%ld, walk yields %ld", wh, t, (long)g->numLocalEdges(t), ne);
      if ((long)g->numLocalPins(t) != npins && ok) BAD("%s: numLocalPins(%d)=%ld, expected %ld", wh, t, (long)g->numLocalPins(t), npins);
      if (o.counts) {
        if (g->numGlobalEdges(t) != (gidt)E.size()) BAD("%s: numGlobalEdges(%d)=%ld, expected %zu", wh, t, (long)g->numGlobalEdges(t), E.size());
        if (g->numGlobalPins(t) != m.pinsOf(t)) BAD("%s: numGlobalPins(%d)=%ld, expected %ld", wh, t, (long)g->numGlobalPins(t), m.pinsOf(t));
      }
      note("edges_compared", ne); note("pins_compared", npins);
      if (o.edgesOf) {
        std::vector<std::vector<int> > inc(m.nv());
        for (int i : held[t]) for (int p : E[i].pins) if (own[p] == me) inc[p].push_back(i);
        for (int x = 0; x < m.nv(); x++) if (own[x] == me) {
          GraphVertex* vx = handle[x];
          if (g->degree(vx, t) != (lid_t)inc[x].size()) { BAD("%s: degree of vertex %lld in type %d is %d, expected %zu", wh, (long long)m.vgid[x], t, (int)g->degree(vx, t), inc[x].size()); continue; }
          std::vector<int> got; EdgeIterator* it = g->edges(vx, t); GraphEdge* q;
          while ((q = g->iterate(it))) { auto f = eix.find(g->globalID(q)); got.push_back(f == eix.end() ? -1 : f->second); if (got.size() > inc[x].size()) break; }
          g->destroy(it);
          std::sort(got.begin(), got.end());
          if (got != inc[x]) { BAD("%s: edges of vertex %lld in type %d are not the incident ones", wh, (long long)m.vgid[x], t); continue; }
          std::vector<int> adj, exa; for (int i : inc[x]) for (int p : E[i].pins) exa.push_back(p);
          GraphIterator* gi = g->adjacent(vx, t); GraphVertex* u; bool bad = false;
          while ((u = g->iterate(gi))) {
            int ux = vix(u); adj.push_back(ux);
            GraphEdge* via = g->edge(gi); auto f = eix.find(g->globalID(via));
            if (f == eix.end() || std::find(E[f->second].pins.begin(), E[f->second].pins.end(), ux) == E[f->second].pins.end()) bad = true;
            if (adj.size() > exa.size()) break;
          }
          g->destroy(gi);
          std::sort(adj.begin(), adj.end()); std::sort(exa.begin(), exa.end());
          if (adj != exa || bad) BAD("%s: neighbours of vertex %lld in type %d differ from the pins of its edges", wh, (long long)m.vgid[x], t);
          note("incidences_compared", exa.size());
        }
      }
    } else {
      typedef std::pair<int, double> DW;
      std::vector<std::vector<DW> > ex(m.nv()), got(m.nv());
      for (int i : held[t]) ex[E[i].pins[0]].push_back({E[i].pins[1], E[i].w});
      long ne = 0; long nh = (long)held[t].size();
      if (g->numLocalEdges(t) != nh) { BAD("%s: numLocalEdges(%d)=%ld, expected %ld", wh, t, (long)g->numLocalEdges(t), nh); }
      std::vector<char> elid(std::max(nh, (long)g->numLocalEdges(t)) + 1, 0);
      EdgeIterator* eit = g->begin(t); GraphEdge* ed;
      while ((ed = g->iterate(eit))) {
        if (++ne > nh) { BAD("%s: walk over edges of type %d yields too many", wh, t); break; }
        int l = g->localID(ed);
        if (l < 0 || l >= nh || elid[l]) BAD("%s: local id %d of an edge of type %d out of range or repeated", wh, l, t); else elid[l] = 1;
        GraphVertex* a = g->u(ed); GraphVertex* b = g->v(ed);
        int ax = vix(a), bx = vix(b);
        if (ax < 0 || bx < 0 || own[ax] != me) { BAD("%s: edge of type %d with end points %d,%d that are not a local source and a known target", wh, t, ax, bx); continue; }
        got[ax].push_back({bx, g->weight(ed)});
        if (g->degree(ed) != 2) BAD("%s: degree of a directed edge is %d", wh, (int)g->degree(ed));
        std::vector<int> pv; PinIterator* pit = g->pins(ed); GraphVertex* p;
        while ((p = g->iterate(pit))) { pv.push_back(vix(p)); if (pv.size() > 2) break; }
        g->destroy(pit);
        if (pv != std::vector<int>({ax, bx})) BAD("%s: pins of directed edge (%lld,%lld) type %d are not its two ends", wh, (long long)m.vgid[ax], (long long)m.vgid[bx], t);
        if (o.residence) {
          Peers exr; exr.insert(own[ax]); exr.insert(own[bx]);
          Peers res; g->getResidence(ed, res);
          if (res != exr) BAD("%s: residence of directed edge (%lld,%lld) wrong", wh, (long long)m.vgid[ax], (long long)m.vgid[bx]);
          for (int q = 0; q < np; q++) if (g->isResidentOn(ed, q) != (exr.count(q) > 0)) { BAD("%s: isResidentOn of directed edge wrong", wh); break; }
          if (g->isCut(ed) != (exr.size() > 1)) BAD("%s: isCut(directed edge (%lld,%lld)) wrong", wh, (long long)m.vgid[ax], (long long)m.vgid[bx]);
        }
      }
      g->destroy(eit);
      if (ne != nh) BAD("%s: walk over edges of type %d yields %ld, expected %ld", wh, t, ne, nh);
      if (g->numLocalPins(t) != 2 * nh) BAD("%s: numLocalPins(%d)=%ld, expected %ld", wh, t, (long)g->numLocalPins(t), 2 * nh);
      if (o.counts) {
        if (g->numGlobalEdges(t) != (gidt)E.size()) BAD("%s: numGlobalEdges(%d)=%ld, expected %zu", wh, t, (long)g->numGlobalEdges(t), E.size());
        if (g->numGlobalPins(t) != 2 * (gidt)E.size()) BAD("%s: numGlobalPins(%d)=%ld, expected %zu", wh, t, (long)g->numGlobalPins(t), 2 * E.size());
      }
      note("edges_compared", ne);
      for (int x = 0; x < m.nv(); x++) if (own[x] == me) {
        std::sort(ex[x].begin(), ex[x].end()); std::sort(got[x].begin(), got[x].end());
        bool same = ex[x].size() == got[x].size();
        for (size_t i = 0; same && i < ex[x].size(); i++) same = ex[x][i].first == got[x][i].first && feq(ex[x][i].second, got[x][i].second);
        if (!same) { BAD("%s: out-edges (targets or weights) of vertex %lld in type %d differ from the given ones", wh, (long long)m.vgid[x], t); continue; }
        if (!o.edgesOf) continue;
        GraphVertex* vx = handle[x];
        if (g->degree(vx, t) != (lid_t)ex[x].size()) { BAD("%s: degree of vertex %lld in type %d is %d, expected %zu", wh, (long long)m.vgid[x], t, (int)g->degree(vx, t), ex[x].size()); continue; }
        std::vector<DW> g2; EdgeIterator* it = g->edges(vx, t); GraphEdge* q;
        while ((q = g->iterate(it))) { if (!g->isEqual(g->u(q), vx)) BAD("%s: edge listed for vertex %lld has another source", wh, (long long)m.vgid[x]); g2.push_back({vix(g->v(q)), g->weight(q)}); if (g2.size() > ex[x].size()) break; }
        g->destroy(it);
        std::sort(g2.begin(), g2.end());
        if (g2 != got[x]) BAD("%s: edges of vertex %lld in type %d differ from its out-edges", wh, (long long)m.vgid[x], t);
        std::vector<int> adj, exa; for (auto& d : ex[x]) exa.push_back(d.first);
        GraphIterator* gi = g->adjacent(vx, t); GraphVertex* u;
        while ((u = g->iterate(gi))) { adj.push_back(vix(u)); GraphEdge* via = g->edge(gi); if (!via || !g->isEqual(g->v(via), u)) BAD("%s: edge(iterator) does not lead to the neighbour", wh); if (adj.size() > exa.size()) break; }
        g->destroy(gi);
        std::sort(adj.begin(), adj.end());
        if (adj != exa) BAD("%s: neighbours of vertex %lld in type %d wrong", wh, (long long)m.vgid[x], t);
        note("incidences_compared", exa.size());
      }
    }
  }
  return allOk(ok, o.comm);
}

void migrateTo(Ngraph* g, const Model& m, const Owners& to, int how) {
  VertexIterator* it = g->begin(); GraphVertex* v;
  if (how == 0) {
    std::vector<part_t> p(g->numLocalVtxs() + 1);
    while ((v = g->iterate(it))) p[g->localID(v)] = to[m.find(g->globalID(v))];
    g->repartition(p.data());
  } else {           // how 1: plan with every vertex; 2: only those that move
    g->setOriginalOwners();
    Migration* plan = new Migration(g);
    std::vector<GraphVertex*> vs; while ((v = g->iterate(it))) vs.push_back(v);
    if (how == 3) std::reverse(vs.begin(), vs.end());
    for (GraphVertex* x : vs) { int d = to[m.find(g->globalID(x))]; if (how == 1 || d != self()) {
        if (how == 3 && (g->globalID(x) & 1)) plan->insert(std::make_pair(x, (d + 1) % peers()));     // a later entry replaces an earlier one
        plan->insert(std::make_pair(x, d)); } }
    g->migrate(plan);
  }
}
std::set<int> expectedGhosts(const Model& m, const Owners& own, int rank) {
  std::set<int> s;
  for (int t = 0; t < m.nt; t++) for (int i : heldEdges(m, own, t, rank)) for (int p : m.e[t][i].pins) if (own[p] != rank) s.insert(p);
  return s;
}

// ------------------------------------------------------------------ digests
static uint64_t hmix(uint64_t h, uint64_t v) { return mix(h, v); }
static uint64_t dbits(double d) { if (d == 0) d = 0; uint64_t u; memcpy(&u, &d, 8); return u; }
uint64_t localDigest(Ngraph* g, bool ghostW) {
  uint64_t sum = 0; VertexIterator* vi = g->begin(); GraphVertex* v;
  while ((v = g->iterate(vi))) {
    uint64_t h = hmix(1, g->globalID(v)); h = hmix(h, dbits(g->weight(v)));
    if (g->hasCoords()) for (int k = 0; k < 3; k++) h = hmix(h, dbits(g->coord(v)[k]));
    sum += h;
  }
  GhostIterator* gi = g->beginGhosts();
  while ((v = g->iterate(gi))) { uint64_t h = hmix(2, g->globalID(v)); h = hmix(h, g->owner(v)); if (ghostW) h = hmix(h, dbits(g->weight(v))); sum += h; }
  for (int t = 0; t < g->numEdgeTypes(); t++) {
    EdgeIterator* ei = g->begin(t); GraphEdge* e;
    while ((e = g->iterate(ei))) {
      uint64_t h = hmix(3, t); if (g->isHyper()) h = hmix(h, g->globalID(e)); h = hmix(h, dbits(g->weight(e)));
      uint64_t ps = 0; int k = 0; PinIterator* pi = g->pins(e);
      while ((v = g->iterate(pi))) ps += hmix(g->isHyper() ? 4 : 4 + k++, g->globalID(v));
      g->destroy(pi);
      sum += hmix(h, ps);
    }
    g->destroy(ei);
    sum += hmix(5 + t, g->numLocalEdges(t)) + hmix(15 + t, g->numGlobalEdges(t)) + hmix(25 + t, g->numGlobalPins(t));
  }
  return sum + hmix(99, g->numGlobalVtxs());
}
uint64_t globalDigest(Ngraph* g, bool ghostW, MPI_Comm c) {
  int me; PMPI_Comm_rank(c, &me);
  uint64_t h = mix(localDigest(g, ghostW), me), s = 0;
  PMPI_Allreduce(&h, &s, 1, MPI_UINT64_T, MPI_SUM, c);
  return s;
}
