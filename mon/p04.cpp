// P04: the external partitioner is given exactly the graph and obeyed exactly
#include "work.h"
#include <parmetis.h>
#include <zoltan.h>
#include <stdexcept>
using namespace agi;

struct Spy {
  bool on, subst, local; const Model* m; const Owners* own; const Groups* G; int et, nparts; double tol;
  std::map<int, std::pair<void (*)(), void*> > fn; std::map<std::string, std::string> par;
  long calls; std::map<gidt, int> answer;      // vertex id -> part, as returned to the library on this process
  std::set<void*> mine; long vtx, pins;
};
static Spy S;

// weight that two vertices share, from the model
static std::map<int, double> sharedOf(int x, bool localOnly) {
  const Model& m = *S.m; std::map<int, double> w;
  static const Model* cm = NULL; static int ct = -1; static uint64_t cs = 0; static std::vector<std::vector<int> > inc;
  if (cm != S.m || ct != S.et || cs != C.caseSeed) {
    cm = S.m; ct = S.et; cs = C.caseSeed; inc.assign(m.nv(), std::vector<int>());
    for (size_t i = 0; i < m.e[S.et].size(); i++) { if (m.hyper) for (int p : m.e[S.et][i].pins) inc[p].push_back(i); else inc[m.e[S.et][i].pins[0]].push_back(i); }
  }
  for (int i : inc[x]) { const MEdge& e = m.e[S.et][i];
    if (m.hyper) { for (int p : e.pins) if (p != x) w[p] += e.w; } else if (e.pins[1] != x) w[e.pins[1]] += e.w; }
  if (localOnly) for (auto it = w.begin(); it != w.end();) if ((*S.own)[it->first] != (*S.own)[x]) it = w.erase(it); else ++it;
  return w;
}

extern "C" int __real_ParMETIS_V3_PartKway(idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, real_t*, real_t*, idx_t*, idx_t*, idx_t*, MPI_Comm*);
extern "C" int __wrap_ParMETIS_V3_PartKway(idx_t* vd, idx_t* xadj, idx_t* adj, idx_t* vw, idx_t* ew, idx_t* wf, idx_t* nf, idx_t* nc, idx_t* np, real_t* tp, real_t* ub, idx_t* opt, idx_t* cut, idx_t* part, MPI_Comm* comm) {
  if (!S.on) return __real_ParMETIS_V3_PartKway(vd, xadj, adj, vw, ew, wf, nf, nc, np, tp, ub, opt, cut, part, comm);
  S.calls++;
  const Model& m = *S.m; int cs, cr; MPI_Comm_size(*comm, &cs); MPI_Comm_rank(*comm, &cr);
  int wantSize = S.local ? 1 : S.G->k;
  if (cs != wantSize) viol("the partitioner runs on %d processes, expected %d", cs, wantSize);
  int meSmall; MPI_Comm_rank(S.G->small, &meSmall);
  std::vector<int> loc; for (int i = 0; i < m.nv(); i++) if ((*S.own)[i] == meSmall) loc.push_back(i);
  bool good = vd[0] == 0 && cs == wantSize;
  for (int p = 0; good && p < cs; p++) {
    long n = 0; for (int o : *S.own) n += o == (S.local ? meSmall : p);
    if (vd[p + 1] - vd[p] != n) { viol("vertex distribution gives %ld vertices to process %d, which has %ld", (long)(vd[p + 1] - vd[p]), p, n); good = false; }
  }
  if (*np != S.nparts) viol("%d parts are asked for, expected %d", (int)*np, S.nparts);
  if (*nc != 1 || *nf != 0) viol("ncon=%d numflag=%d", (int)*nc, (int)*nf);
  for (int i = 0; i < *np; i++) if (fabs(tp[i] * *np - 1) > 1e-3) { viol("target weight of part %d is %g of %d parts", i, (double)tp[i], (int)*np); break; }
  if (fabs(ub[0] - S.tol) > 1e-4) viol("tolerance %g is given, %g was requested", (double)ub[0], S.tol);
  if ((*wf & 2) == 0 || (*wf & 1) == 0) viol("weights are not used (wgtflag=%d)", (int)*wf);
  good = allOk(good, *comm);
  std::vector<int> row(good ? loc.size() : 0, -1);
  if (good) {
    // rows are recognised by the (unique) vertex weight
    std::map<long, int> byW; for (int x : loc) byW[(long)m.vw[x]] = x;
    std::vector<gidt> mine;
    for (size_t i = 0; i < loc.size(); i++) {
      auto it = byW.find(vw[i]);
      if (it == byW.end()) { viol("row %zu has vertex weight %ld, which no vertex of this part has (or another row has it)", i, (long)vw[i]); good = false; break; }
      row[i] = it->second; byW.erase(it); mine.push_back(row[i]);
    }
    good = allOk(good, *comm);
    if (good) {
      std::vector<gidt> all = allgatherv(mine, *comm);      // position = number of the vertex
      for (size_t i = 0; i < loc.size() && good; i++) {
        std::map<int, double> ex = sharedOf(row[i], S.local), got; S.vtx++;
        for (idx_t k = xadj[i]; k < xadj[i + 1]; k++) {
          long a = adj[k]; S.pins++;
          if (a < 0 || a >= (long)all.size()) { viol("vertex %lld has neighbour number %ld, there are %zu vertices", (long long)m.vgid[row[i]], a, all.size()); good = false; break; }
          int y = (int)all[a];
          if (y == row[i]) { viol("vertex %lld is given as its own neighbour", (long long)m.vgid[y]); good = false; break; }
          if (got.count(y)) { viol("neighbour %lld of vertex %lld is given twice", (long long)m.vgid[y], (long long)m.vgid[row[i]]); good = false; break; }
          got[y] = ew[k];
        }
        if (!good) break;
        for (auto& q : ex) if (!got.count(q.first)) { viol("vertex %lld lacks its neighbour %lld", (long long)m.vgid[row[i]], (long long)m.vgid[q.first]); good = false; break; }
        if (good) for (auto& q : got) { auto f = ex.find(q.first); if (f == ex.end()) { viol("vertex %lld is given neighbour %lld, they share no edge of type %d%s", (long long)m.vgid[row[i]], (long long)m.vgid[q.first], S.et, S.local ? " within the part" : ""); good = false; break; }
            if (!feq(f->second, q.second)) { viol("vertices %lld and %lld share edges of weight %g, %g is given", (long long)m.vgid[row[i]], (long long)m.vgid[q.first], f->second, q.second); good = false; break; } }
      }
      if (loc.size() && xadj[0] != 0) viol("xadj starts at %ld", (long)xadj[0]);
    }
  }
  int rc = METIS_OK;
  if (S.subst || !good) { Rng q(mix(C.caseSeed, 500 + C.rank)); for (size_t i = 0; i < loc.size(); i++) part[i] = q.below(S.nparts); *cut = 0; }
  else rc = __real_ParMETIS_V3_PartKway(vd, xadj, adj, vw, ew, wf, nf, nc, np, tp, ub, opt, cut, part, comm);
  for (size_t i = 0; i < row.size(); i++) if (row[i] >= 0) S.answer[m.vgid[row[i]]] = (int)part[i];
  return rc;
}

extern "C" int __real_Zoltan_Set_Fn(Zoltan_Struct*, ZOLTAN_FN_TYPE, void (*)(), void*);
extern "C" int __wrap_Zoltan_Set_Fn(Zoltan_Struct* z, ZOLTAN_FN_TYPE t, void (*f)(), void* d) { S.fn[(int)t] = {f, d}; return __real_Zoltan_Set_Fn(z, t, f, d); }
extern "C" int __real_Zoltan_Set_Param(Zoltan_Struct*, const char*, const char*);
extern "C" int __wrap_Zoltan_Set_Param(Zoltan_Struct* z, const char* a, const char* b) { S.par[a] = b; return __real_Zoltan_Set_Param(z, a, b); }

template <class T> struct Guarded {          // n values between two canaries
  std::vector<T> b; size_t n; T pat;
  Guarded(size_t n_, T p) : b(n_ + 16, p), n(n_), pat(p) {}
  T* p() { return &b[8]; }
  T& operator[](size_t i) { return b[8 + i]; }
  bool intact() const { for (int i = 0; i < 8; i++) if (memcmp(&b[i], &pat, sizeof(T)) || memcmp(&b[8 + n + i], &pat, sizeof(T))) return false; return true; }
};
static bool zoltanLocal(std::vector<unsigned>& gid, std::vector<unsigned>& lid, std::vector<gidt>& mine, std::vector<int>& have) {
  const Model& m = *S.m; bool ok = true; int err = -7;
#define ZBAD(...) do { viol(__VA_ARGS__); ok = false; } while (0)
  auto need = [&](int t) { if (!S.fn.count(t)) { ZBAD("query function %d is not registered", t); return false; } return true; };
  if (!need(ZOLTAN_NUM_OBJ_FN_TYPE) || !need(ZOLTAN_OBJ_LIST_FN_TYPE)) return false;
  auto F = [&](int t) { return S.fn[t].first; }; auto D = [&](int t) { return S.fn[t].second; };
  std::vector<int> loc; for (int i = 0; i < m.nv(); i++) if (S.G->world[(*S.own)[i]] == C.rank) loc.push_back(i);
  int n = ((ZOLTAN_NUM_OBJ_FN*)F(ZOLTAN_NUM_OBJ_FN_TYPE))(D(ZOLTAN_NUM_OBJ_FN_TYPE), &err);
  if (n != (int)loc.size()) { ZBAD("%d objects are declared, this part has %zu vertices", n, loc.size()); return false; }
  Guarded<unsigned> gg(n, 0xABCD1234u), ll(n, 0xABCD1234u); Guarded<float> ww(n, -77.5f);
  ((ZOLTAN_OBJ_LIST_FN*)F(ZOLTAN_OBJ_LIST_FN_TYPE))(D(ZOLTAN_OBJ_LIST_FN_TYPE), 1, 1, gg.p(), ll.p(), 1, ww.p(), &err);
  if (!gg.intact() || !ll.intact() || !ww.intact()) ZBAD("the object list is written beyond its %d entries", n);
  std::set<unsigned> seenL; std::vector<int> vx(n, -1); std::set<int> seen;
  for (int i = 0; i < n; i++) {
    int x = m.find(gg[i]); S.vtx++;
    if (x < 0 || S.G->world[(*S.own)[x]] != C.rank) { ZBAD("object %u is no vertex of this part", gg[i]); continue; }
    if (!seen.insert(x).second) ZBAD("object %u is listed twice", gg[i]);
    if (!seenL.insert(ll[i]).second) ZBAD("local object id %u is used twice", ll[i]);
    if (!feq(ww[i], m.vw[x], 1e-5)) ZBAD("object %u is given weight %g, the vertex has %g", gg[i], ww[i], m.vw[x]);
    vx[i] = x;
  }
  if (!ok) return false;
  for (int i = 0; i < n; i++) { gid.push_back(gg[i]); lid.push_back(ll[i]); }
  const std::vector<MEdge>& E = m.e[S.et];
  if (m.hyper) {
    int a = ZOLTAN_HG_SIZE_CS_FN_TYPE, b = ZOLTAN_HG_CS_FN_TYPE, c = ZOLTAN_HG_SIZE_EDGE_WTS_FN_TYPE, d = ZOLTAN_HG_EDGE_WTS_FN_TYPE;
    if (!need(a) || !need(b) || !need(c) || !need(d)) return false;
    int nl = -1, npin = -1, fmt = -1;
    ((ZOLTAN_HG_SIZE_CS_FN*)F(a))(D(a), &nl, &npin, &fmt, &err);
    if (nl < 0 || npin < 0 || (fmt != ZOLTAN_COMPRESSED_VERTEX && fmt != ZOLTAN_COMPRESSED_EDGE)) { ZBAD("sizes %d %d format %d", nl, npin, fmt); return false; }
    Guarded<unsigned> lg(nl, 0xABCD1234u), pg(npin, 0xABCD1234u); Guarded<int> of(nl + 1, -55);
    ((ZOLTAN_HG_CS_FN*)F(b))(D(b), 1, nl, npin, fmt, lg.p(), of.p(), pg.p(), &err);
    if (!lg.intact() || !of.intact() || !pg.intact()) { ZBAD("pins are written beyond the declared %d lists and %d pins", nl, npin); return false; }
    std::unordered_map<gidt, int> eix; for (size_t i = 0; i < E.size(); i++) eix[E[i].id] = (int)i;
    for (int i = 0; i < nl; i++) {
      int s = of[i], t = i + 1 < nl ? of[i + 1] : npin;
      if (s < 0 || t < s || t > npin) { ZBAD("list %d covers pins %d to %d of %d", i, s, t, npin); return false; }
      for (int k = s; k < t; k++) { unsigned v = fmt == ZOLTAN_COMPRESSED_VERTEX ? lg[i] : pg[k], e = fmt == ZOLTAN_COMPRESSED_VERTEX ? pg[k] : lg[i];
        auto f = eix.find(e); int x = m.find(v); S.pins++;
        if (f == eix.end() || x < 0) { ZBAD("pin (%u,%u) names no vertex or no edge of type %d", v, e, S.et); return false; }
        mine.push_back((gidt)f->second * m.nv() + x); }
    }
    int ne = -1; ((ZOLTAN_HG_SIZE_EDGE_WTS_FN*)F(c))(D(c), &ne, &err);
    if (ne < 0 || ne > (int)E.size()) { ZBAD("%d edge weights are declared", ne); return false; }
    Guarded<unsigned> eg(ne, 0xABCD1234u), el(ne, 0xABCD1234u); Guarded<float> ew(ne, -77.5f);
    ((ZOLTAN_HG_EDGE_WTS_FN*)F(d))(D(d), 1, 1, ne, 1, eg.p(), el.p(), ew.p(), &err);
    if (!eg.intact() || !el.intact() || !ew.intact()) { ZBAD("edge weights are written beyond the declared %d", ne); return false; }
    for (int i = 0; i < ne; i++) { auto f = eix.find(eg[i]); if (f == eix.end()) { ZBAD("a weight is given for edge %u, which does not exist", eg[i]); return false; }
      have[f->second]++; if (have[f->second] > 1) ZBAD("the weight of edge %u is given twice by one process", eg[i]);
      if (!feq(ew[i], E[f->second].w, 1e-5)) ZBAD("edge %u is given weight %g, it has %g", eg[i], ew[i], E[f->second].w); }
  } else {
    int a = ZOLTAN_NUM_EDGES_FN_TYPE, b = ZOLTAN_EDGE_LIST_FN_TYPE;
    if (!S.fn.count(a) || !S.fn.count(b)) { note("other_graph_queries"); return ok; }
    for (int i = 0; i < n && ok; i++) {
      std::map<int, double> ex = sharedOf(vx[i], false), got; unsigned g = gg[i], l = ll[i];
      int k = ((ZOLTAN_NUM_EDGES_FN*)F(a))(D(a), 1, 1, &g, &l, &err);
      if (k < 0) { ZBAD("vertex %u has %d edges", g, k); break; }
      Guarded<unsigned> nb(k, 0xABCD1234u); Guarded<int> pr(k, -55); Guarded<float> w(k, -77.5f);
      ((ZOLTAN_EDGE_LIST_FN*)F(b))(D(b), 1, 1, &g, &l, nb.p(), pr.p(), 1, w.p(), &err);
      if (!nb.intact() || !pr.intact() || !w.intact()) { ZBAD("edges of vertex %u are written beyond the declared %d", g, k); break; }
      for (int j = 0; j < k; j++) {
        int y = m.find(nb[j]); S.pins++;
        if (y < 0) { ZBAD("vertex %u is given neighbour %u, which does not exist", g, nb[j]); break; }
        if (y == vx[i]) { ZBAD("vertex %u is given as its own neighbour", g); break; }
        if (pr[j] != S.G->world[(*S.own)[y]]) { ZBAD("neighbour %u is said to be on process %d, it is on %d", nb[j], pr[j], S.G->world[(*S.own)[y]]); break; }
        got[y] += w[j];
      }
      if (!ok) break;
      if (got.size() != ex.size()) { ZBAD("vertex %u has %zu neighbours, %zu are given", g, ex.size(), got.size()); break; }
      for (auto& q : ex) if (!got.count(q.first) || !feq(got[q.first], q.second, 1e-5)) { ZBAD("vertex %u and its neighbour %lld share weight %g, %g is given", g, (long long)m.vgid[q.first], q.second, got.count(q.first) ? got[q.first] : 0.0); break; }
    }
  }
  return ok;
}

static bool zoltanInput(std::vector<unsigned>& gid, std::vector<unsigned>& lid) {
  const Model& m = *S.m; const std::vector<MEdge>& E = m.e[S.et]; std::vector<gidt> mine; std::vector<int> have(E.size() + 1, 0), sum(E.size() + 1, 0);
  bool ok = allOk(zoltanLocal(gid, lid, mine, have));
  if (!ok || !m.hyper) return ok;
  std::vector<gidt> all = allgatherv(mine, MPI_COMM_WORLD), ex;
  for (size_t i = 0; i < E.size(); i++) for (int p : E[i].pins) ex.push_back((gidt)i * m.nv() + p);
  std::sort(all.begin(), all.end()); std::sort(ex.begin(), ex.end());
  if (C.rank == 0 && all != ex) ZBAD("the %zu pins given over all processes are not the %zu pins of edge type %d", all.size(), ex.size(), S.et);
  PMPI_Allreduce(have.data(), sum.data(), (int)have.size(), MPI_INT, MPI_SUM, MPI_COMM_WORLD);
  for (size_t i = 0; i < E.size(); i++) if (!sum[i] && C.rank == 0) { ZBAD("no weight is given for edge %lld", (long long)E[i].id); break; }
  return allOk(ok);
}

extern "C" int __real_Zoltan_LB_Free_Part(ZOLTAN_ID_PTR*, ZOLTAN_ID_PTR*, int**, int**);
extern "C" int __wrap_Zoltan_LB_Free_Part(ZOLTAN_ID_PTR* a, ZOLTAN_ID_PTR* b, int** c, int** d) {
  if (a && S.mine.count(*a)) { S.mine.erase(*a); free(*a); free(*b); free(*c); free(*d); *a = *b = NULL; *c = *d = NULL; return ZOLTAN_OK; }
  return __real_Zoltan_LB_Free_Part(a, b, c, d);
}
extern "C" int __real_Zoltan_LB_Partition(Zoltan_Struct*, int*, int*, int*, int*, ZOLTAN_ID_PTR*, ZOLTAN_ID_PTR*, int**, int**, int*, ZOLTAN_ID_PTR*, ZOLTAN_ID_PTR*, int**, int**);
extern "C" int __wrap_Zoltan_LB_Partition(Zoltan_Struct* z, int* ch, int* ng, int* nl, int* ni, ZOLTAN_ID_PTR* ig, ZOLTAN_ID_PTR* il, int** ip, int** it, int* ne, ZOLTAN_ID_PTR* eg, ZOLTAN_ID_PTR* el, int** ep, int** et) {
  if (!S.on) return __real_Zoltan_LB_Partition(z, ch, ng, nl, ni, ig, il, ip, it, ne, eg, el, ep, et);
  S.calls++;
  auto P = [&](const char* k) { return S.par.count(k) ? S.par[k] : std::string(); };
  if (atoi(P("NUM_GLOBAL_PARTS").c_str()) != S.nparts) viol("%s parts are asked for, expected %d", P("NUM_GLOBAL_PARTS").c_str(), S.nparts);
  if (P("OBJ_WEIGHT_DIM") != "1" || P("EDGE_WEIGHT_DIM") != "1") viol("weights are not used (dimensions %s and %s)", P("OBJ_WEIGHT_DIM").c_str(), P("EDGE_WEIGHT_DIM").c_str());
  if (fabs(atof(P("IMBALANCE_TOL").c_str()) - S.tol) > 1e-4) viol("tolerance %s is given, %g was requested", P("IMBALANCE_TOL").c_str(), S.tol);
  std::string lm = P("LB_METHOD"); if (lm != (S.m->hyper ? "HYPERGRAPH" : "GRAPH")) viol("method %s is asked for a %s graph", lm.c_str(), S.m->hyper ? "hyper" : "traditional");
  std::vector<unsigned> gid, lid; bool ok = allOk(zoltanInput(gid, lid));
  int rc = ZOLTAN_OK;
  if (S.subst || !ok) {
    Rng q(mix(C.caseSeed, 500 + C.rank)); double stay = q.unit(); int n = 0;
    *ch = 1; *ng = *nl = 1; *ni = 0; *ig = *il = NULL; *ip = *it = NULL;
    size_t sz = std::max<size_t>(1, gid.size());
    *eg = (ZOLTAN_ID_PTR)malloc(sz * sizeof(ZOLTAN_ID_TYPE)); *el = (ZOLTAN_ID_PTR)malloc(sz * sizeof(ZOLTAN_ID_TYPE)); *ep = (int*)malloc(sz * sizeof(int)); *et = (int*)malloc(sz * sizeof(int));
    S.mine.insert(*eg);
    std::vector<int> ord(gid.size()); for (size_t i = 0; i < ord.size(); i++) ord[i] = (int)i; q.shuffle(ord);
    for (int i : ord) { int p = q.chance(stay) ? C.rank : q.below(C.np); if (p == C.rank) { S.answer[gid[i]] = C.rank; continue; }
      (*eg)[n] = gid[i]; (*el)[n] = lid[i]; (*ep)[n] = (*et)[n] = p; n++; S.answer[gid[i]] = p; }
    *ne = n;
  } else {
    rc = __real_Zoltan_LB_Partition(z, ch, ng, nl, ni, ig, il, ip, it, ne, eg, el, ep, et);
    for (unsigned g : gid) S.answer[g] = C.rank;
    for (int i = 0; i < *ne; i++) S.answer[(*eg)[i]] = (*ep)[i];
  }
  return rc;
}

static const char* mname[] = {"global", "local", "zoltan"};
static void run(Rng& r) {
  int method = r.below(3); bool local = method == 1; int k = r.range(1, C.np), factor = r.range(1, C.np); bool scattered = r.chance(0.6);
  Groups G = local ? makeGroups(r, 0, scattered, factor) : makeGroups(r, k, scattered);
  GenOpts o; o.maxV = genSize(r, 40, 150, 500); o.minV = std::max(4 * G.k, o.maxV / 2); if (o.maxV < o.minV) o.maxV = o.minV;
  o.maxT = 4; o.zeroDeg = false; o.sym = 1; o.weights = 1; o.ids = method == 2 ? (r.chance(0.5) ? 0 : 1) : -1;
  Model m = genModel(r, o);
  { std::vector<int> w(m.nv()); for (int i = 0; i < m.nv(); i++) w[i] = i + 1; r.shuffle(w); for (int i = 0; i < m.nv(); i++) m.vw[i] = w[i] + 10; m.unitVW = false; }
  int et = r.below(m.nt); double tol = 1.01 + 0.01 * r.below(30); bool subst = r.chance(0.6);
  Owners own = genOwners(r, m, G.k, method == 0 ? (r.chance(0.5) ? 1 : 5) : -1);
  bool before = r.chance(0.3); Build bb = genBuild(r); Owners mv = genOwners(r, m, G.k, 5); int how = r.below(4);
  caseInfo("%s %d->%d%s et=%d tol=%.2f%s %s %s", mname[method], G.k, C.np, scattered ? " scattered" : "", et, tol, subst ? " answered at random" : "", m.desc.c_str(), ownDesc(own, G.k).c_str());
  PCU_Switch_Comm(G.small);
  Ngraph* g;
  if (G.orig) { g = build(m, own, bb); if (before) { migrateTo(g, m, mv, how); g->resetOwnership(); } } else g = createEmptyGraph();
  if (before) own = mv;
  std::vector<int> others(std::max(1, G.factor), 0);
  if (local && G.orig) others = G.parts[std::find(G.world.begin(), G.world.end(), C.rank) - G.world.begin()];
  engpar::SplitInput* in = local ? engpar::createLocalSplitInput(g, G.small, G.large, G.orig, G.factor, tol, &others[0], et) : engpar::createGlobalSplitInput(g, G.small, G.large, G.orig, tol, et);
  S.on = true; S.subst = subst; S.local = local; S.m = &m; S.own = &own; S.G = &G; S.et = et; S.nparts = local ? factor : C.np; S.tol = tol;
  S.calls = 0; S.answer.clear(); S.fn.clear(); S.par.clear(); S.vtx = S.pins = 0;
  engpar::split(in, method == 0 ? engpar::GLOBAL_PARMETIS : local ? engpar::LOCAL_PARMETIS : engpar::ZOLTAN_PHG);
  S.on = false;
  int nloc = 0; for (int x : own) nloc += G.world[x] == C.rank;
  bool must = method == 2 || (G.orig && (method == 0 || nloc > 0));
  if (must && S.calls != 1) { viol("the partitioner was called %ld times", S.calls); }
  if (!must && S.calls != 0) viol("the partitioner was called %ld times where nothing is to be partitioned", S.calls);
  note("inputs_judged", S.calls); note("adjacencies_judged", S.pins);
  bool ok = allOk(C.violsThisCase == 0);
  if (ok) {
    std::vector<gidt> mine;
    for (auto& a : S.answer) { mine.push_back(a.first); mine.push_back(local ? others[a.second] : a.second); }
    std::vector<gidt> all = allgatherv(mine, MPI_COMM_WORLD);
    Owners want(m.nv(), -1), now;
    for (size_t i = 0; i + 1 < all.size(); i += 2) { int x = m.find(all[i]); if (x >= 0) want[x] = (int)all[i + 1]; }
    if (gatherOwners(g, m, now, MPI_COMM_WORLD, "after the split")) {
      long moved = 0;
      for (int i = 0; i < m.nv(); i++) { if (now[i] != want[i]) { if (!C.rank) viol("vertex %lld went to %d, the partitioner's answer leads to %d", (long long)m.vgid[i], now[i], want[i]); break; } moved += now[i] != G.world[own[i]]; }
      if (C.rank == 0) { note("vertices_obeyed", m.nv()); note(strf("splits_%s", mname[method]).c_str()); if (subst) note("answers_substituted"); note("vertices_moved", moved); }
      if (!moved && C.np > 1) trivialCase();
    }
  }
  destroyGraph(g);
  PCU_Switch_Comm(MPI_COMM_WORLD); freeGroups(G);
}
MODULE("P04", run, NULL, NULL);
