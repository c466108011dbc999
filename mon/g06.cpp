// G06: the validity check accepts valid graphs and rejects broken ones
#include "model.h"
#include <unistd.h>
#include <fcntl.h>
using namespace agi;
static int savedErr = -1;
static bool check(Ngraph* g) {        // its messages go to stderr
  fflush(stderr); savedErr = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n);
  bool ok = checkValidity(g);
  fflush(stderr); dup2(savedErr, 2); close(savedErr); return ok;
}
static void run(Rng& r) {
  GenOpts o; o.maxV = genSize(r, 25, 80, 400); o.minV = std::max(1, o.maxV / 3); o.maxT = 4; o.maxPins = 8;
  genBig(o, 100);
  Model m = genModel(r, o);
  Owners own = genOwners(r, m, C.np);
  caseInfo("%s %s", m.desc.c_str(), ownDesc(own, C.np).c_str());
  Ngraph* g = build(m, own, r);
  int steps = r.below(4);
  std::string hist = "construction";
  for (int s = 0;; s++) {
    if (!check(g)) viol("the validity check rejects a valid graph after %s", hist.c_str());
    note("valid_checked");
    if (s == steps) break;
    int what = r.below(5);
    if (what < 3) { Owners to = genOwners(r, m, C.np); migrateTo(g, m, to, r.below(4)); own = to; hist += ", migration"; }
    else if (what == 3 && m.nt > 1) { int t = r.below(m.nt); g->removeEdges(t); m.e[t].clear(); m.nt = g->numEdgeTypes(); hist += ", removal of a type"; if (!m.nt) break; }
    else { std::string f = scratch() + "/g06"; g->saveToFile(f.c_str()); bool small = true; for (gidt x : m.vgid) small &= x < 2147483647; for (int t = 0; t < m.nt; t++) for (auto& e : m.e[t]) small &= e.id < 2147483647;
      if (small) { g->loadFromFile(f.c_str()); hist += ", loading"; } }
  }
  if (!m.nt) { destroyGraph(g); return; }
  // ---- break it in one way on one process
  PNgraph* p = g->publicize();
  int kinds = r.range(1, 4);
  for (int k = 0; k < kinds; k++) {
    int kind = r.below(8), victim = r.below(C.np), t = r.below(m.nt); bool did = false; std::string what;
    Rng lr(mix(C.caseSeed, 17 + k));
    int delta = lr.chance(0.5) ? 1 : -1 - lr.below(2); lid_t* L = NULL; lid_t oldL = 0; gidt* G = NULL; gidt oldG = 0; part_t* Ow = NULL; part_t oldO = 0;
    if (C.rank == victim) {
      switch (kind) {
        case 0: G = &p->num_global_verts; oldG = *G; *G += delta; what = "global vertex count"; did = true; break;
        case 1: G = &p->num_global_edges[t]; oldG = *G; *G += delta; what = "global edge count"; did = true; break;
        case 2: G = &p->num_global_pins[t]; oldG = *G; *G += delta; what = "global pin count"; did = true; break;
        case 3: L = &p->num_local_pins[t]; oldL = *L; *L += delta; what = "local pin count"; did = true; break;
        case 4: {       // a vertex lists an edge that does not list it
          if (!m.hyper) break;
          std::vector<std::pair<lid_t*, lid_t> > cand;
          for (lid_t v = 0; v < p->num_local_verts; v++) for (lid_t q = p->degree_list[t][v]; q < p->degree_list[t][v + 1]; q++)
            for (lid_t e = 0; e < p->num_local_edges[t] && cand.size() < 400; e++) { bool has = false; for (lid_t z = p->pin_degree_list[t][e]; z < p->pin_degree_list[t][e + 1]; z++) has |= p->pin_list[t][z] == v; if (!has) cand.push_back({&p->edge_list[t][q], e}); }
          if (cand.empty()) break;
          auto c = cand[lr.below((int)cand.size())]; L = c.first; oldL = *L; *L = c.second; what = "edge listed by a vertex"; did = true; break; }
        case 5: {       // an edge no longer lists a vertex that lists it
          if (!m.hyper) break;
          std::vector<lid_t*> cand;
          for (lid_t e = 0; e < p->num_local_edges[t]; e++) for (lid_t z = p->pin_degree_list[t][e]; z < p->pin_degree_list[t][e + 1]; z++) if (p->pin_list[t][z] < p->num_local_verts) cand.push_back(&p->pin_list[t][z]);
          if (cand.empty() || p->num_local_verts + p->num_ghost_verts < 2) break;
          L = cand[lr.below((int)cand.size())]; oldL = *L; int n = p->num_local_verts + p->num_ghost_verts; *L = (oldL + 1 + lr.below(n - 1)) % n; what = "pin of an edge"; did = true; break; }
        case 6: if (p->num_ghost_verts) { Ow = &p->owners[lr.below(p->num_ghost_verts)]; oldO = *Ow; *Ow = C.rank; what = "ghost owned by its own process"; did = true; } break;
        default: if (p->num_ghost_verts) { Ow = &p->owners[lr.below(p->num_ghost_verts)]; oldO = *Ow; *Ow = C.np + lr.below(5); what = "ghost owned by a process that does not exist"; did = true; }
      }
    }
    bool ok = check(g);
    if (did && ok) viol("the validity check returns true on the process with a wrong %s (type %d)", what.c_str(), t);
    if (did) note(("broken: " + what).c_str());
    if (L) *L = oldL; if (G) *G = oldG; if (Ow) *Ow = oldO;
    if (!check(g)) viol("the validity check rejects the repaired graph");
  }
  destroyGraph(g);
  if (m.nv() < 2) trivialCase();
}
MODULE("G06", run, NULL, NULL);
