// F01: saving and loading a graph gives the same graph
#include "model.h"
#include "faults.h"
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
using namespace agi;

static void list(const std::string& d, std::set<std::string>& out) {
  DIR* D = opendir(d.c_str()); if (!D) return;
  while (dirent* e = readdir(D)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat s; lstat(p.c_str(), &s); if (S_ISDIR(s.st_mode)) list(p, out); else out.insert(p); }
  closedir(D);
}
static void wipe(const std::string& d) {         // only below the scratch directory of this run
  if (d.compare(0, C.out.size(), C.out)) return;
  DIR* D = opendir(d.c_str()); if (!D) return;
  while (dirent* e = readdir(D)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat s; lstat(p.c_str(), &s); if (S_ISDIR(s.st_mode)) wipe(p); else unlink(p.c_str()); }
  closedir(D); rmdir(d.c_str());
}
// an edge list of a vertex or edge in a form that can be compared exactly
struct Exact { std::map<gidt, std::vector<double> > v; std::map<gidt, int> gh; std::vector<std::map<gidt, std::vector<double> > > e; std::vector<std::map<gidt, std::vector<gidt> > > pins; std::vector<std::multiset<std::vector<double> > > d; };
static Exact exact(Ngraph* g) {
  Exact X; VertexIterator* it = g->begin(); GraphVertex* v;
  while ((v = g->iterate(it))) { auto& a = X.v[g->globalID(v)]; a.push_back(g->weight(v)); if (g->hasCoords()) { const coord_t& c = g->coord(v); a.insert(a.end(), c, c + 3); } }
  GhostIterator* gi = g->beginGhosts(); while ((v = g->iterate(gi))) X.gh[g->globalID(v)] = g->owner(v);
  int nt = g->numEdgeTypes(); X.e.resize(nt); X.pins.resize(nt); X.d.resize(nt);
  for (int t = 0; t < nt; t++) {
    EdgeIterator* ei = g->begin(t); GraphEdge* e;
    while ((e = g->iterate(ei))) {
      std::vector<gidt> p; PinIterator* pi = g->pins(e); while ((v = g->iterate(pi))) p.push_back(g->globalID(v)); g->destroy(pi);
      if (g->isHyper()) { X.e[t][g->globalID(e)] = {g->weight(e)}; X.pins[t][g->globalID(e)] = p; }
      else { double w = g->weight(e); X.d[t].insert({(double)p[0], (double)p[1], w}); }
    }
    g->destroy(ei);
  }
  return X;
}
static bool bitSame(const std::map<gidt, std::vector<double> >& a, const std::map<gidt, std::vector<double> >& b) {
  if (a.size() != b.size()) return false;
  for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) if (i->first != j->first || i->second.size() != j->second.size() || memcmp(i->second.data(), j->second.data(), 8 * i->second.size())) return false;
  return true;
}
static void compare(const Exact& a, const Exact& b, const char* what) {
  if (!bitSame(a.v, b.v)) viol("%s: vertices, weights or coordinates are not bit for bit those of the saved graph", what);
  if (a.gh != b.gh) viol("%s: ghosts or their owners are not those of the saved graph", what);
  if (a.e.size() != b.e.size()) { viol("%s: %zu edge types instead of %zu", what, b.e.size(), a.e.size()); return; }
  for (size_t t = 0; t < a.e.size(); t++) {
    if (!bitSame(a.e[t], b.e[t])) viol("%s: ids or weights of the edges of type %zu are not bit for bit those of the saved graph", what, t);
    if (a.pins[t] != b.pins[t]) viol("%s: pins of type %zu are not those of the saved graph in order", what, t);
    if (a.d[t] != b.d[t]) viol("%s: directed edges of type %zu or their weights are not those of the saved graph", what, t);
  }
  note("graphs_compared_bitwise");
}
static double oddDouble(Rng& r) {
  switch (r.below(9)) { case 0: return 0; case 1: return -0.0; case 2: return 1e300 * (1 + r.unit()); case 3: return -1e-300 * r.unit(); case 4: return 5e-324; case 5: return 1.0 / 3; case 6: return -(double)r.below(1 << 30); case 7: return r.unit() * 1e17; default: return r.unit(); }
}
// numbers of the vertices and edges moved to the top of the 32-bit range
static void raise(Rng& r, Model& m) {
  gidt mx = 0; for (gidt x : m.vgid) mx = std::max(mx, x);
  gidt off = 4294967295ll - mx - r.below(3); if (off < 0) return;
  for (gidt& x : m.vgid) x += off;
  for (int t = 0; t < m.nt; t++) { gidt em = 0; for (auto& e : m.e[t]) em = std::max(em, e.id); gidt eo = 4294967295ll - em; if (eo >= 0 && m.hyper) for (auto& e : m.e[t]) e.id += eo; }
  m.index();
}
static Model smallModel(Rng& r, bool any, bool big = false) {
  GenOpts o; o.maxV = genSize(r, 25, 80, 400); o.ids = 1; if (!any) o.maxV = 10; else if (big && genBig(o)) { o.maxT = 1; o.minV = 20000; o.maxV = 24000; } Model m = genModel(r, o);
  bool up = r.chance(0.25), odd = r.chance(0.3); uint64_t os = r.next();
  if (up) { raise(r, m); m.desc += " ids up to 2^32-1"; }
  if (odd) { Rng q(os); if (m.coords) for (auto& c : m.xyz) for (int k = 0; k < 3; k++) c[k] = oddDouble(q); for (double& w : m.vw) w = fabs(oddDouble(q)); m.desc += " odd values"; m.unitVW = false; }
  return m;
}
static std::string makeName(Rng& r, const std::string& dir, std::string& kind) {
  switch (r.below(8)) {
    case 0: kind = "plain"; return dir + "/g";
    case 1: kind = "new directories"; return dir + "/a/b c/d/g";
    case 2: kind = "directory only"; return dir + "/sub/";
    case 3: kind = "long name"; return dir + "/" + std::string(200 + r.below(40), 'x');
    case 4: kind = "long path"; { std::string p = dir; for (int i = 0; i < 4; i++) p += "/" + std::string(100 + r.below(100), (char)('a' + i)); return p + "/g"; }
    case 5: kind = "odd characters"; return dir + "/%d%s ä_0.bgd";
    case 6: kind = "relative"; { return "./" + dir.substr(C.out.size() + 1) + "/rel"; }
    default: kind = "one character"; return dir + "/q/z";
  }
}
static void run(Rng& r) {
  std::string top = scratch() + strf("/c%d", C.caseIdx); mkdir(top.c_str(), 0700);
  Model m = smallModel(r, true, true); Owners own = genOwners(r, m, C.np);
  Build b = genBuild(r); b.extraGhosts = false;
  std::string kind, name = makeName(r, top, kind);
  int pre = r.below(3); bool over = r.chance(0.4), again = r.chance(0.3), after = r.chance(0.4), late = r.chance(0.2), twice = r.chance(0.2), neww = r.chance(0.2);
  caseInfo("%s %s | %s, %d migrations before, %s", m.desc.c_str(), ownDesc(own, C.np).c_str(), kind.c_str(), pre, over ? "loaded over another graph" : "loaded into an empty graph");
  if (m.nv() < 2) trivialCase();
  Ngraph* g = build(m, own, b);
  for (int i = 0; i < pre; i++) { Owners to = genOwners(r, m, C.np); migrateTo(g, m, to, r.below(4)); own = to; }
  if (neww) {
    std::vector<wgt_t> w; uint64_t ws = r.next(); for (int i = 0; i < m.nv(); i++) m.vw[i] = 1 + (mix(ws, i) % 1000) / 7.0;
    VertexIterator* it = g->begin(); GraphVertex* v; while ((v = g->iterate(it))) w.push_back(m.vw[m.find(g->globalID(v))]);
    g->setWeights(w.data());
  }
  CheckOpts co("before saving"); co.ghostW = !neww; bool ok = checkDistributed(g, m, own, co);
  if (!ok) { destroyGraph(g); return; }
  Exact A = exact(g); uint64_t dg = localDigest(g);
  Ngraph* h = createEmptyGraph();
  if (over) { delete h; Rng q(r.next()); Model m2 = smallModel(q, false); Owners o2 = genOwners(q, m2, C.np); h = build(m2, o2, q); }
  MPI_Barrier(MPI_COMM_WORLD);
  g->saveToFile(name.c_str());
  if (localDigest(g) != dg) viol("saving changes the graph");
  MPI_Barrier(MPI_COMM_WORLD);
  if (!C.rank) {
    std::set<std::string> fs, ex; list(top, fs);
    std::string n = name.compare(0, 2, "./") ? name : C.out + "/" + name.substr(2);
    size_t sl = n.rfind('/'); std::string dir = n.substr(0, sl), base = n.substr(sl + 1);
    for (const std::string& f : fs) { size_t s2 = f.rfind('/'); if (f.substr(0, s2) != dir || f.compare(s2 + 1, base.size(), base)) viol("saving %s wrote %s", name.c_str(), f.c_str()); }
    if ((int)fs.size() != C.np) viol("saving on %d processes left %zu files", C.np, fs.size());
    note("directories_listed");
  }
  MPI_Barrier(MPI_COMM_WORLD);
  if (late) { Owners to = genOwners(r, m, C.np); migrateTo(g, m, to, 0); }       // the file keeps the graph as it was
  for (int i = 0; i < (twice ? 2 : 1) && ok; i++) {
    h->loadFromFile(name.c_str());
    CheckOpts c2("after loading"); ok = checkDistributed(h, m, own, c2);
    if (ok) compare(A, exact(h), "after loading");
    note("loads");
  }
  if (ok && !checkValidity(h)) { viol("the loaded graph is called invalid"); }
  if (ok && after) {
    Owners to = genOwners(r, m, C.np); int how = r.below(4); migrateTo(h, m, to, how);
    CheckOpts c3("after migrating the loaded graph"); ok = checkDistributed(h, m, to, c3); own = to;
  }
  ok = allOk(ok && !C.violsThisCase);
  if (ok && again) {                                                             // another graph under the same name
    Rng q(r.next()); Model m2 = smallModel(q, true); Owners o2 = genOwners(q, m2, C.np); Build b2 = genBuild(q); b2.extraGhosts = false;
    Ngraph* k = build(m2, o2, b2); k->saveToFile(name.c_str()); Exact K = exact(k); destroyGraph(k);
    k = createEmptyGraph(); k->loadFromFile(name.c_str()); CheckOpts c4("after loading what was saved over another graph"); if (checkDistributed(k, m2, o2, c4)) compare(K, exact(k), c4.when);
    destroyGraph(k); note("overwrites");
  }
  destroyGraph(g); destroyGraph(h);
  MPI_Barrier(MPI_COMM_WORLD);
  if (!C.rank) wipe(top);
  MPI_Barrier(MPI_COMM_WORLD);
}

// two groups of processes save and load at the same time
static void groups(Rng& r) {
  std::string top = scratch() + strf("/c%d", C.caseIdx); mkdir(top.c_str(), 0700); MPI_Barrier(MPI_COMM_WORLD);
  int cut = r.range(1, C.np - 1), grp = C.rank >= cut; MPI_Comm c; MPI_Comm_split(MPI_COMM_WORLD, grp, -C.rank, &c);
  Rng q(mix(C.caseSeed, grp)); int np; MPI_Comm_size(c, &np);
  PCU_Switch_Comm(c);
  Model m = smallModel(q, true); Owners own = genOwners(q, m, np); Build b = genBuild(q); b.extraGhosts = false;
  caseInfo("two groups %d+%d", cut, C.np - cut);
  Ngraph* g = build(m, own, b); Exact A = exact(g);
  std::string name = top + strf("/g%d", grp);
  g->saveToFile(name.c_str()); destroyGraph(g); g = createEmptyGraph(); g->loadFromFile(name.c_str());
  CheckOpts co("loaded by one of two groups"); co.comm = c; if (checkDistributed(g, m, own, co)) compare(A, exact(g), co.when);
  destroyGraph(g); note("group_loads");
  PCU_Switch_Comm(MPI_COMM_WORLD); MPI_Comm_free(&c);
  MPI_Barrier(MPI_COMM_WORLD); if (!C.rank) wipe(top); MPI_Barrier(MPI_COMM_WORLD);
}

static void putFault(Rng& r, const std::string& f, int kind, std::string& what) {
  struct stat s; long n = stat(f.c_str(), &s) ? 0 : s.st_size;
  switch (kind) {
    case 0: what = "missing file"; unlink(f.c_str()); break;
    case 1: { long k = n ? r.below((int)n) : 0; if (r.chance(0.3)) k = std::max(0l, n - 1 - r.below(4)); if (r.chance(0.2)) k = r.below(12); k = std::min(k, n - 1); what = strf("file of %ld bytes cut to %ld", n, k); if (truncate(f.c_str(), k)) {} break; }
    case 2: what = "a directory in place of the file"; unlink(f.c_str()); mkdir(f.c_str(), 0700); break;
    case 3: what = "empty file"; if (truncate(f.c_str(), 0)) {} break;
    case 4: what = "full device"; unlink(f.c_str()); if (symlink("/dev/full", f.c_str())) {} break;
    default: what = "dangling link into a missing directory"; unlink(f.c_str()); if (symlink((f + ".no/no").c_str(), f.c_str())) {} break;
  }
}
// single process: many faults, each in a child
static void faults(Rng& r) {
  std::string top = scratch() + strf("/c%d", C.caseIdx); mkdir(top.c_str(), 0700);
  Model m = smallModel(r, true); Owners own(m.nv(), 0); Build b = genBuild(r); b.extraGhosts = false;
  Ngraph* g = build(m, own, b); std::string name = top + "/g", f = name + "_0.bgd", what;
  bool load = r.chance(0.6);
  caseInfo("%s |", m.desc.c_str());
  g->saveToFile(name.c_str());
  struct stat s; if (stat(f.c_str(), &s)) { std::set<std::string> fs; list(top, fs); if (fs.size() == 1) f = *fs.begin(); }
  std::string bad, said;
  if (load) { putFault(r, f, (int[]){0, 1, 1, 1, 2, 3, 5}[r.below(7)], what); bad = mustFail([&]() { Ngraph* h = createEmptyGraph(); h->loadFromFile(name.c_str()); }, &said); }
  else {
    int k = (int[]){2, 4, 4, 5, 9}[r.below(5)];
    if (k == 9) { what = "a file in place of the directory"; name = f + "/x/g"; }
    else putFault(r, f, k, what);
    bad = mustFail([&]() { g->saveToFile(name.c_str()); }, &said);
  }
  caseInfo("%s with %s", load ? "load" : "save", what.c_str());
  if (!bad.empty()) viol("%s with %s: %s", load ? "loading" : "saving", what.c_str(), bad.c_str());
  note(strf("faults_%s", load ? "load" : "save").c_str());
  destroyGraph(g); wipe(top);
}
// several processes, the fault on one of them: the whole run has to end with an error (judged by check.py)
static void faultsMany(Rng& r) {
  std::string top = scratch() + strf("/c%d", C.caseIdx); mkdir(top.c_str(), 0700); MPI_Barrier(MPI_COMM_WORLD);
  Model m = smallModel(r, true); Owners own = genOwners(r, m, C.np, 1); Build b = genBuild(r); b.extraGhosts = false;
  Ngraph* g = build(m, own, b); std::string name = top + "/g", what;
  bool load = r.chance(0.7); int who = r.below(C.np);
  g->saveToFile(name.c_str()); MPI_Barrier(MPI_COMM_WORLD);
  int kl = (int[]){0, 1, 1, 2, 3}[r.below(5)], ks = (int[]){2, 4}[r.below(2)];
  Rng q(r.next());
  if (C.rank == who) putFault(q, name + strf("_%d.bgd", who), load ? kl : ks, what);
  MPI_Barrier(MPI_COMM_WORLD);
  caseInfo("%s of rank %d fails: %s", load ? "load" : "save", who, load ? (kl == 0 ? "missing" : "damaged") : "unwritable");
  bool threw = false;
  try { if (load) { Ngraph* h = createEmptyGraph(); h->loadFromFile(name.c_str()); } else g->saveToFile(name.c_str()); } catch (...) { threw = true; }
  if (threw) { fprintf(stderr, "exception\n"); MPI_Abort(MPI_COMM_WORLD, 9); }
  MPI_Barrier(MPI_COMM_WORLD);
  viol("%s with a file that one process cannot %s returns on every process", load ? "loading" : "saving", load ? "read" : "write");
}
static void any(Rng& r) {
  if (C.mode == "fault") { if (C.np == 1) faults(r); else faultsMany(r); return; }
  if (C.np > 1 && C.caseIdx % 8 == 7) { groups(r); return; }
  run(r);
}
MODULE("F01", any, NULL, NULL);
