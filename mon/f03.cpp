// F03: visualisation output is well formed and describes the graph
#include "model.h"
#include <agi.h>
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
using namespace agi;

// a small XML reader: enough for elements with attributes, numbers as text
struct Node { std::string tag; std::map<std::string, std::string> at; std::vector<Node> kids; std::string text;
  const Node* kid(const std::string& t, const std::string& name = "") const { for (auto& k : kids) if (k.tag == t && (name.empty() || (k.at.count("Name") && k.at.at("Name") == name))) return &k; return NULL; } };
struct Xml {
  const char* p; std::string err;
  void ws() { while (*p && isspace((unsigned char)*p)) p++; }
  bool fail(const char* e) { if (err.empty()) err = e; return false; }
  bool name(std::string& s) { s.clear(); while (*p && (isalnum((unsigned char)*p) || strchr("_:-.", *p))) s += *p++; return !s.empty() || fail("missing name"); }
  bool node(Node& n) {
    if (*p != '<') return fail("expected an element"); p++;
    if (!name(n.tag)) return false;
    while (1) {
      ws(); if (*p == '/') { if (p[1] != '>') return fail("bad empty element"); p += 2; return true; }
      if (*p == '>') { p++; break; }
      std::string a, v; if (!name(a)) return false; if (*p++ != '=') return fail("attribute without value"); char q = *p++; if (q != '"' && q != '\'') return fail("unquoted attribute");
      while (*p && *p != q && *p != '<') v += *p++; if (*p != q) return fail("unterminated attribute"); p++;
      if (n.at.count(a)) return fail("attribute twice"); n.at[a] = v;
    }
    while (*p) {
      if (*p == '<') {
        if (p[1] == '/') { p += 2; std::string e; if (!name(e)) return false; ws(); if (*p++ != '>') return fail("bad end tag"); return e == n.tag || fail("mismatched end tag"); }
        n.kids.push_back(Node()); if (!node(n.kids.back())) return false;
      } else { if (*p == '&') return fail("bare &"); n.text += *p++; }
    }
    return fail("element is not closed");
  }
  bool doc(Node& n) { ws(); if (!strncmp(p, "<?xml", 5)) { while (*p && *p != '>') p++; if (*p) p++; ws(); } if (!node(n)) return false; ws(); return !*p || fail("text after the end"); }
};
static bool slurp(const std::string& f, std::string& s) { FILE* i = fopen(f.c_str(), "r"); if (!i) return false; char b[65536]; size_t n; s.clear(); while ((n = fread(b, 1, sizeof b, i)) > 0) s.append(b, n); fclose(i); return true; }
static bool numbers(const std::string& t, std::vector<double>& v) { const char* p = t.c_str(); char* e; v.clear(); while (1) { while (isspace((unsigned char)*p)) p++; if (!*p) return true; double d = strtod(p, &e); if (e == p || (*e && !isspace((unsigned char)*e))) return false; v.push_back(d); p = e; } }
static bool near(double a, double b) { return (a != a && b != b) || fabs(a - b) <= 2e-6 + 1e-12 * fabs(b); }

#define BAD(...) do { viol(__VA_ARGS__); return; } while (0)
static void judgePiece(Ngraph* g, const Model& m, const Owners& own, const std::string& f, const std::vector<int>& tagV, const std::map<gidt, int>& tagE, bool hasTag, etype tt) {
  std::string s; if (!slurp(f, s)) BAD("no file %s was written", f.c_str());
  Node doc; Xml x; x.p = s.c_str(); if (s.find('\0') != std::string::npos || !x.doc(doc)) BAD("the file of process %d is not well formed: %s", C.rank, x.err.c_str());
  if (doc.tag != "VTKFile" || doc.at["type"] != "UnstructuredGrid") BAD("the file is no unstructured grid");
  const Node* ug = doc.kid("UnstructuredGrid"); const Node* pc = ug ? ug->kid("Piece") : NULL; if (!pc) BAD("the file has no piece");
  if (ug->kids.size() != 1) BAD("the file has %zu pieces", ug->kids.size());
  long np = atol(pc->at.count("NumberOfPoints") ? pc->at.at("NumberOfPoints").c_str() : "-1"), nc = atol(pc->at.count("NumberOfCells") ? pc->at.at("NumberOfCells").c_str() : "-1");
  const Node* P = pc->kid("Points"); const Node* Ce = pc->kid("Cells"); const Node* D = pc->kid("PointData"); if (!P || !Ce || !D) BAD("points, cells or point data are missing");
  const Node* pa = P->kid("DataArray"); const Node* co = Ce->kid("DataArray", "connectivity"); const Node* of = Ce->kid("DataArray", "offsets"); const Node* ty = Ce->kid("DataArray", "types"); if (!pa || !co || !of || !ty) BAD("an array is missing");
  std::vector<double> pts, con, off, typ; if (!numbers(pa->text, pts) || !numbers(co->text, con) || !numbers(of->text, off) || !numbers(ty->text, typ)) BAD("an array holds something that is no number");
  if ((long)pts.size() != 3 * np) BAD("%ld points are declared, %zu numbers given", np, pts.size());
  if ((long)off.size() != nc || (long)typ.size() != nc) BAD("%ld cells are declared, %zu offsets and %zu types given", nc, off.size(), typ.size());
  if (nc && (long)off.back() != (long)con.size()) BAD("the last offset is %ld, the connectivity has %zu entries", (long)off.back(), con.size());
  for (long i = 0; i < nc; i++) if (off[i] != 2 * (i + 1) || typ[i] != 3) BAD("cell %ld is no line of two points", i);
  for (double c : con) if (c < 0 || c >= np || c != floor(c)) BAD("a cell refers to point %g of %ld", c, np);
  std::map<std::string, std::vector<double> > arr;
  for (auto& k : D->kids) { if (k.tag != "DataArray") BAD("unknown element in the point data"); std::vector<double> v; if (!numbers(k.text, v)) BAD("a point array holds something that is no number"); if ((long)v.size() != np) BAD("point array %s has %zu values for %ld points", k.at.at("Name").c_str(), v.size(), np); arr[k.at.at("Name")] = v; note("arrays_judged"); }
  note("pieces_judged"); note("points_judged", np); note("cells_judged", nc);
  // points: vertices first, by local id
  long nl = g->numLocalVtxs(), ne = m.hyper ? g->numLocalEdges(0) : 0; if (np < nl + ne) BAD("%ld points for %ld vertices and %ld hyperedges", np, nl, ne);
  std::vector<int> at(nl, -1); VertexIterator* it = g->begin(); GraphVertex* v; long i = 0;
  while ((v = g->iterate(it))) {
    int x = m.find(g->globalID(v)); if (x < 0) return; at[i] = x;
    for (int k = 0; k < 3; k++) if (!near(pts[3 * i + k], m.xyz[x][k])) BAD("point %ld is at %.7g in direction %d, its vertex at %.7g", i, pts[3 * i + k], k, m.xyz[x][k]);
    if (!arr.count("Part") || arr["Part"][i] != C.rank) BAD("vertex point %ld is not on part %d", i, C.rank);
    if (m.hyper && (!arr.count("VorE") || arr["VorE"][i] != 0)) BAD("vertex point %ld is marked as no vertex", i);
    if (hasTag && tt == VTX_TYPE && (!arr.count("Tag") || arr["Tag"][i] != tagV[x])) BAD("vertex point %ld has the wrong tag", i);
    i++;
  }
  if (m.hyper) {
    std::unordered_map<gidt, int> ei; for (size_t k = 0; k < m.e[0].size(); k++) ei[m.e[0][k].id] = (int)k;
    std::multiset<std::pair<long, long> > exp, got;
    EdgeIterator* eit = g->begin((etype)0); GraphEdge* e;
    while ((e = g->iterate(eit))) {
      const MEdge& me = m.e[0][ei[g->globalID(e)]]; double c[3] = {0, 0, 0}; double mag = 0;
      for (int p : me.pins) for (int k = 0; k < 3; k++) { c[k] += m.xyz[p][k]; mag = std::max(mag, fabs(m.xyz[p][k])); }
      if (!me.pins.empty()) for (int k = 0; k < 3; k++) if (fabs(pts[3 * i + k] - c[k] / me.pins.size()) > 2e-6 + 1e-9 * mag) BAD("the point of hyperedge %lld is at %.7g in direction %d, its pins' mean is %.7g", (long long)me.id, pts[3 * i + k], k, c[k] / me.pins.size());
      if (arr["Part"][i] != C.rank || arr["VorE"][i] != 1) BAD("the point of hyperedge %lld has wrong part or kind", (long long)me.id);
      if (hasTag && tt == 0 && (!arr.count("Tag") || arr["Tag"][i] != tagE.at(me.id))) BAD("the point of hyperedge %lld has the wrong tag", (long long)me.id);
      for (int p : me.pins) if (own[p] == C.rank) { long a = std::find(at.begin(), at.end(), p) - at.begin(); exp.insert({std::min(a, i), std::max(a, i)}); }
      i++;
    }
    g->destroy(eit);
    for (long k = 0; k < nc; k++) { long a = (long)con[2 * k], b = (long)con[2 * k + 1]; got.insert({std::min(a, b), std::max(a, b)}); }
    if (got != exp) BAD("the lines drawn (%zu) are not the pins of the hyperedges to vertices of this part (%zu)", got.size(), exp.size());
  } else {
    std::map<int, int> lid; for (long k = 0; k < nl; k++) lid[at[k]] = (int)k;
    std::multiset<std::pair<long, long> > exp, got; std::vector<std::vector<long> > far(nl);      // lines inside the part; points beyond it per vertex
    for (long k = 0; k < nc; k++) { long a = (long)con[2 * k], b = (long)con[2 * k + 1]; if (a > b) std::swap(a, b); if (a >= nl) BAD("line %ld touches no vertex of this part", k); if (b < nl) got.insert({a, b}); else far[a].push_back(b); }
    for (int h : heldEdges(m, own, 0, C.rank)) {
      int u = m.e[0][h].pins[0], w = m.e[0][h].pins[1]; long a = lid[u];
      if (own[w] == C.rank) { long b = lid[w]; exp.insert({std::min(a, b), std::max(a, b)}); continue; }
      bool hit = false;
      for (size_t q = 0; q < far[a].size() && !hit; q++) { long b = far[a][q]; bool eq = true; for (int k = 0; k < 3; k++) eq = eq && near(pts[3 * b + k], m.xyz[w][k]); if (eq) { far[a].erase(far[a].begin() + q); hit = true; } }
      if (!hit) BAD("no line is drawn from vertex %lld to its neighbour %lld on another part", (long long)m.vgid[u], (long long)m.vgid[w]);
    }
    if (exp != got) BAD("the lines drawn inside the part (%zu) are not its edges (%zu)", got.size(), exp.size());
    for (auto& x : far) if (!x.empty()) BAD("a line is drawn to another part that is no edge");
    for (long k = nl; k < np; k++) { if (arr["Part"][k] == C.rank || arr["Part"][k] < 0 || arr["Part"][k] >= C.np) BAD("a point beyond the local vertices is on part %g", arr["Part"][k]); note("ghost_points"); }
  }
  bool wantTag = hasTag && (tt == VTX_TYPE || m.hyper);
  if (!wantTag && arr.count("Tag")) BAD("a tag is written that was not asked for");
}
static void judgeIndex(const std::string& prefix, const Model& m) {
  std::string s; if (!slurp(prefix + ".pvtu", s)) BAD("no index %s.pvtu was written", prefix.c_str());
  Node doc; Xml x; x.p = s.c_str(); if (!x.doc(doc)) BAD("the index is not well formed: %s", x.err.c_str());
  const Node* pu = doc.kid("PUnstructuredGrid"); if (doc.tag != "VTKFile" || doc.at["type"] != "PUnstructuredGrid" || !pu) BAD("the index is no parallel unstructured grid");
  std::set<std::string> src; for (auto& k : pu->kids) if (k.tag == "Piece") { std::string f = k.at.count("Source") ? k.at.at("Source") : "?"; size_t sl = f.rfind('/'); src.insert(sl == std::string::npos ? f : f.substr(sl + 1)); }
  size_t sl = prefix.rfind('/'); std::string base = sl == std::string::npos ? prefix : prefix.substr(sl + 1);
  for (int i = 0; i < C.np; i++) if (!src.count(base + strf("%d.vtu", i))) BAD("the index does not name the file of process %d", i);
  if ((int)src.size() != C.np) BAD("the index names %zu files for %d processes", src.size(), C.np);
  // the arrays declared are those of the pieces
  std::string q; if (!slurp(prefix + "0.vtu", q)) return; Node d0; Xml y; y.p = q.c_str(); if (!y.doc(d0)) return;
  std::set<std::string> a, b; const Node* pd = pu->kid("PPointData"); if (pd) for (auto& k : pd->kids) a.insert(k.at.at("Name") + "/" + k.at.at("type"));
  const Node* u = d0.kid("UnstructuredGrid"); const Node* pc = u ? u->kid("Piece") : NULL; const Node* dd = pc ? pc->kid("PointData") : NULL; if (dd) for (auto& k : dd->kids) b.insert(k.at.at("Name") + "/" + k.at.at("type"));
  if (a != b) BAD("the index declares %zu point arrays, the pieces have %zu or others", a.size(), b.size());
  if (!pu->kid("PPoints")) BAD("the index declares no points");
  note("indices_judged"); (void)m;
}
static void run(Rng& r) {
  GenOpts o; o.maxV = genSize(r, 50, 150, C.tier == "quick" ? 400 : 2000); o.coords = 1; o.zeroDeg = r.chance(0.3);
  genBig(o, 100);
  Model m = genModel(r, o); m.coords = true; uint64_t cs = r.next(); int ck = r.below(4);
  for (int i = 0; i < m.nv(); i++) { Rng q(mix(cs, i)); for (int k = 0; k < 3; k++) m.xyz[i][k] = ck == 0 ? q.below(1000) : ck == 1 ? (q.unit() - 0.5) * 10 : ck == 2 ? (q.unit() - 0.5) * 1e6 : k == 2 ? 0 : q.unit() * 1e-3; }
  Owners own = genOwners(r, m, C.np); Build b = genBuild(r); b.extraGhosts = false; int pre = r.below(2);
  Ngraph* g = build(m, own, b);
  for (int i = 0; i < pre; i++) { Owners to = genOwners(r, m, C.np); migrateTo(g, m, to, r.below(4)); own = to; }
  int tk = r.below(4); etype tt = tk == 1 ? VTX_TYPE : tk == 2 ? 0 : tk == 3 && m.nt > 1 ? r.range(1, m.nt - 1) : NO_TYPE; bool tg = tk != 0 && tt != NO_TYPE;
  int nk = r.below(4); std::string top = scratch(), prefix = nk == 1 ? "vtk_" : nk == 2 ? top + "/" + std::string(190 + r.below(50), 'v') : nk == 3 ? top + "/a.b-c" : top + "/g";
  prefix += strf("_%d_", C.caseIdx);
  uint64_t ts = r.next();
  caseInfo("%s %s coords %d tag %d name %zu chars, %d migrations", m.desc.c_str(), ownDesc(own, C.np).c_str(), ck, (int)tt, prefix.size(), pre);
  std::vector<int> tv(m.nv()); for (int i = 0; i < m.nv(); i++) tv[i] = (int)(mix(ts, i) % 2000001) - 1000000;
  std::map<gidt, int> te; GraphTag* tag = NULL;
  if (tg) {
    tag = g->createIntTag(tt);
    if (tt == VTX_TYPE) { VertexIterator* it = g->begin(); GraphVertex* v; while ((v = g->iterate(it))) g->setIntTag(tag, v, tv[m.find(g->globalID(v))]); }
    else { EdgeIterator* it = g->begin(tt); GraphEdge* e; while ((e = g->iterate(it))) { int x = (int)(mix(ts, 77 + g->globalID(e)) % 1000003); te[g->globalID(e)] = x; g->setIntTag(tag, e, x); } g->destroy(it); }
  }
  CheckOpts co("before rendering"); bool ok = checkDistributed(g, m, own, co);
  if (ok) {
    uint64_t d0 = localDigest(g);
    writeVTK(g, prefix.c_str(), tag, tg ? tt : NO_TYPE);
    MPI_Barrier(MPI_COMM_WORLD);
    if (localDigest(g) != d0) viol("rendering changes the graph");
    judgePiece(g, m, own, prefix + strf("%d.vtu", C.rank), tv, te, tg, tt);
    if (!C.rank) judgeIndex(prefix, m);
    note("renders");
    MPI_Barrier(MPI_COMM_WORLD);
    unlink((prefix + strf("%d.vtu", C.rank)).c_str()); if (!C.rank) unlink((prefix + ".pvtu").c_str());
  }
  if (tag) g->destroyTag(tag);
  destroyGraph(g);
}
MODULE("F03", run, NULL, NULL);
