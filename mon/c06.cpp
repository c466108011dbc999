// C06: misuse is refused, not executed; what only looks like it is accepted.
#include "model.h"
#include "faults.h"
#include <agiMigration.h>
#include <engpar_support.h>
#include <engpar.h>
#include <engpar_input.h>
#include <PCU.h>
using namespace agi;

// some ordinary phases, so that misuse meets every state a program can be in
static void phases(Rng& r, int n) {
  for (int i = 0; i < n; i++) {
    PCU_Comm_Order(r.chance(0.5)); PCU_Comm_Begin(); std::vector<long> sent;
    int k = r.below(4); for (int j = 0; j < k; j++) { long x = (long)r.next(); PCU_Comm_Pack(0, &x, sizeof x); sent.push_back(x); }
    PCU_Comm_Send(); size_t got = 0;
    while (PCU_Comm_Listen()) { if (PCU_Comm_Sender() != 0) _exit(9); while (!PCU_Comm_Unpacked()) { long y; PCU_Comm_Unpack(&y, sizeof y); if (got >= sent.size() || y != sent[got++]) _exit(9); } }
    if (got != sent.size()) _exit(9);
  }
}
static const char* names[] = {"packing before a phase has begun", "packing after sending", "packing while receiving", "packing for process -1", "packing for a process beyond the last", "sending before a phase has begun", "sending twice",
  "beginning a phase while packing", "beginning a phase after sending", "beginning a phase while receiving", "listening before a phase has begun", "listening while packing", "listening after the end of a phase", "listening again before the message has been unpacked",
  "unpacking more than was received", "asking for the packed size before anything was packed", "asking for the packed size outside a phase", "asking for the packed size for a process that does not exist", "initialising twice", "using the layer after it was freed", "freeing twice",
  "packing after the end of a phase", "writing to a process that does not exist", "moving a vertex to a process that does not exist", "unpacking from an empty rest", "splitting with an input made for balancing", "splitting locally without naming the processes"};
enum { NKIND = sizeof names / sizeof *names };
static void misuse(int kind, Rng& r, bool fine) {
  long x = 5, y; int pk = r.range(1, 4); bool ord = r.chance(0.5); char big[64]; memset(big, 0, sizeof big);
  phases(r, r.below(3));
  auto begin = [&] { PCU_Comm_Order(ord); PCU_Comm_Begin(); };
  auto pack = [&] { for (int i = 0; i < pk; i++) PCU_Comm_Pack(0, &x, sizeof x); };
  auto drain = [&] { while (PCU_Comm_Listen()) while (!PCU_Comm_Unpacked()) PCU_Comm_Unpack(&y, sizeof y); };
  auto whole = [&] { begin(); pack(); PCU_Comm_Send(); drain(); };
  switch (kind) {
  case 0: if (fine) begin(); PCU_Comm_Pack(0, &x, sizeof x); if (fine) { PCU_Comm_Send(); drain(); } break;
  case 1: begin(); pack(); if (!fine) PCU_Comm_Send(); PCU_Comm_Pack(0, &x, sizeof x); if (fine) { PCU_Comm_Send(); drain(); } break;
  case 2: ord = false; begin(); pack(); PCU_Comm_Send(); PCU_Comm_Listen(); if (fine) { while (!PCU_Comm_Unpacked()) PCU_Comm_Unpack(&y, sizeof y); drain(); begin(); } PCU_Comm_Pack(0, &x, sizeof x); if (fine) { PCU_Comm_Send(); drain(); } break;
  case 3: begin(); PCU_Comm_Pack(fine ? 0 : -1, &x, sizeof x); PCU_Comm_Send(); drain(); break;
  case 4: begin(); PCU_Comm_Pack(fine ? 0 : PCU_Comm_Peers() + r.below(2), &x, sizeof x); PCU_Comm_Send(); drain(); break;
  case 5: if (fine) begin(); PCU_Comm_Send(); drain(); break;
  case 6: begin(); pack(); PCU_Comm_Send(); if (!fine) PCU_Comm_Send(); drain(); break;
  case 7: begin(); pack(); if (fine) { PCU_Comm_Send(); drain(); } PCU_Comm_Begin(); if (fine) { PCU_Comm_Send(); drain(); } break;
  case 8: begin(); pack(); PCU_Comm_Send(); if (fine) drain(); PCU_Comm_Begin(); if (fine) { PCU_Comm_Send(); drain(); } break;
  case 9: ord = false; begin(); pack(); PCU_Comm_Send(); PCU_Comm_Listen(); while (!PCU_Comm_Unpacked()) PCU_Comm_Unpack(&y, sizeof y); if (fine) drain(); PCU_Comm_Begin(); if (fine) { PCU_Comm_Send(); drain(); } break;
  case 10: if (fine) { begin(); PCU_Comm_Send(); } PCU_Comm_Order(ord); PCU_Comm_Listen(); break;
  case 11: begin(); pack(); if (fine) PCU_Comm_Send(); drain(); break;
  case 12: whole(); if (fine) { begin(); PCU_Comm_Send(); } PCU_Comm_Listen(); break;
  case 13: ord = false; begin(); pack(); PCU_Comm_Send(); PCU_Comm_Listen(); for (int i = 0; i < (fine ? pk : r.below(pk)); i++) PCU_Comm_Unpack(&y, sizeof y); PCU_Comm_Listen(); break;
  case 14: begin(); pack(); PCU_Comm_Send(); PCU_Comm_Listen(); for (int i = 0; i < pk - 1; i++) PCU_Comm_Unpack(&y, sizeof y); PCU_Comm_Unpack(big, sizeof y + (fine ? 0 : r.range(1, 8))); drain(); break;
  case 15: { begin(); if (fine) pack(); size_t n = 0; PCU_Comm_Packed(0, &n); if (fine && n != pk * sizeof x) _exit(9); PCU_Comm_Send(); drain(); break; }
  case 16: { size_t n; if (r.chance(0.5)) { whole(); } else { begin(); pack(); PCU_Comm_Send(); } if (!fine) PCU_Comm_Packed(0, &n); break; }
  case 17: { size_t n; begin(); pack(); PCU_Comm_Packed(fine ? 0 : r.chance(0.5) ? -1 : PCU_Comm_Peers(), &n); PCU_Comm_Send(); drain(); break; }
  case 18: if (fine) PCU_Comm_Free(); PCU_Comm_Init(); whole(); break;
  case 19: { PCU_Comm_Free(); if (fine) PCU_Comm_Init(); int v[2] = {1, 2}; long w = 3; size_t n; switch (r.below(18)) { case 0: PCU_Comm_Begin(); break; case 1: PCU_Comm_Self(); break; case 2: PCU_Comm_Peers(); break; case 3: PCU_Barrier(); break; case 4: PCU_Add_Ints(v, 2); break; case 5: PCU_Max_Int(3); break; case 6: PCU_Add_Long(w); break; case 7: PCU_Or(1); break; case 8: PCU_Exscan_Int(1); break;
      case 9: PCU_Comm_Order(true); break; case 10: PCU_Switch_Comm(MPI_COMM_SELF); break; case 11: PCU_Get_Comm(); break; case 12: PCU_Min_Double(1.5); break; case 13: PCU_Add_Double(2.5); break; case 14: PCU_Max_SizeT(4); break; case 15: if (fine) { PCU_Comm_Begin(); PCU_Comm_Send(); } PCU_Comm_Listen(); break; case 16: if (fine) { PCU_Comm_Begin(); pack(); } PCU_Comm_Packed(0, &n); break; default: PCU_Exscan_Long(7); } break; }
  case 20: PCU_Comm_Free(); if (fine) PCU_Comm_Init(); PCU_Comm_Free(); break;
  case 21: whole(); if (fine) begin(); PCU_Comm_Pack(0, &x, sizeof x); if (fine) { PCU_Comm_Send(); drain(); } break;
  case 22: { PCU_Comm_Start(PCU_GLOBAL_METHOD); PCU_Comm_Write(fine ? 0 : r.chance(0.5) ? -1 : 1, &x, sizeof x); PCU_Comm_Send(); int f; void* d; size_t n; while (PCU_Comm_Read(&f, &d, &n)) {} break; }
  case 23: { GenOpts o; o.maxV = 30; Model m = genModel(r, o); Owners own(m.nv(), 0); Ngraph* g = build(m, own, r); g->setOriginalOwners(); int k = r.below(m.nv()), i = 0; Migration* p = new Migration(g); VertexIterator* vi = g->begin(); GraphVertex* v; while ((v = g->iterate(vi))) if (i++ == k) p->insert(std::make_pair(v, fine ? 0 : r.chance(0.5) ? 1 : 7)); g->migrate(p); destroyGraph(g); break; }
  case 25: case 26: { GenOpts o; o.minV = 8; o.maxV = 30; o.topo = T_GRIDN; o.sym = 1; o.selfLoops = false; o.zeroDeg = false; o.weights = 1; Model m = genModel(r, o); Owners own(m.nv(), 0); Ngraph* g = build(m, own, r); int here = 0;
      engpar::Input* in; if (kind == 25 && !fine) in = r.chance(0.5) ? (engpar::Input*)engpar::createDiffusiveInput(g, 0.1) : (engpar::Input*)engpar::createWeightInput(g, 1.1, 0.1, 0);
      else if (kind == 26 && !fine) in = engpar::createGlobalSplitInput(g, MPI_COMM_WORLD, MPI_COMM_WORLD, true, 1.1, 0); else in = engpar::createLocalSplitInput(g, MPI_COMM_WORLD, MPI_COMM_WORLD, true, 1, 1.1, &here, 0);
      engpar::split(in, engpar::LOCAL_PARMETIS); destroyGraph(g); break; }
  default: begin(); pack(); PCU_Comm_Send(); PCU_Comm_Listen(); for (int i = 0; i < pk; i++) PCU_Comm_Unpack(&y, sizeof y); if (!fine) PCU_Comm_Unpack(&y, 1 + r.below(8)); else PCU_Comm_Unpack(&y, 0); drain(); break;
  }
}
static void one(Rng& r) {
  int kind = C.caseIdx % NKIND; uint64_t s = r.next(); std::string said;
  caseInfo("%s", names[kind]);
  Rng a(s), b(s);
  std::string bad = mustFail([&] { misuse(kind, a, false); }, &said);
  if (!bad.empty()) viol("%s: %s", names[kind], bad.c_str());
  note("misuses_refused");
  std::string ok = mustFail([&] { misuse(kind, b, true); }, &said);
  if (ok != "it returns as if nothing was wrong") viol("the proper form of '%s' is refused: %s", names[kind], said.substr(0, 120).c_str());
  note("proper_uses");
}
// handles that name nothing, on every process of a distributed graph
static void handles(Rng& r) {
  GenOpts o; o.maxV = 50; o.coords = 1; Model m = genModel(r, o); Owners own = genOwners(r, m, C.np);
  caseInfo("%s %s", m.desc.c_str(), ownDesc(own, C.np).c_str());
  Ngraph* g = build(m, own, r); if (r.chance(0.5)) g->setOriginalOwners();
  bool rec = r.chance(0.3); if (rec) g->resetOwnership();
  Rng q(mix(C.caseSeed, C.rank + 3));
  fflush(stderr); int keep = dup(2); FILE* n = fopen("/dev/null", "w"); dup2(fileno(n), 2);
  GhostIterator* gi = g->beginGhosts(); GraphVertex* v; VertexIterator* vi;
  auto throws = [&](const char* what, const std::function<void()>& f) { bool t = false; try { f(); } catch (...) { t = true; } if (!t) viol("%s is answered", what); note("handles_refused"); };
  while ((v = g->iterate(gi))) throws("the position of a ghost", [&] { g->coord(v); });
  vi = g->begin(); while ((v = g->iterate(vi))) { bool t = false; try { g->coord(v); g->weight(v); } catch (...) { t = true; } if (t || g->owner(v) != self()) { viol("the position or owner of an owned vertex is refused"); break; } }
  for (int i = 0; i < 4; i++) {
    GraphVertex* x = reinterpret_cast<GraphVertex*>((char*)NULL + g->numTotalVtxs() + 1 + (i == 0 ? 0 : q.below(1000000)));
    throws("the weight of a vertex that does not exist", [&] { g->weight(x); });
    throws("the position of a vertex that does not exist", [&] { g->coord(x); });
    if (g->owner(x) != -1) viol("a vertex that does not exist has the owner %d", g->owner(x));
    if (rec && g->originalOwner(x) != -1) viol("a vertex that does not exist had the owner %d", g->originalOwner(x));
  }
  if (m.hyper) for (int t = 0; t < m.nt; t++) { EdgeIterator* ei = g->begin(t); GraphEdge* e = g->iterate(ei); if (e && g->v(e)) viol("a hyperedge has a single end"); g->destroy(ei); }
  fflush(stderr); dup2(keep, 2); close(keep); fclose(n);
  destroyGraph(g);
}
static void any(Rng& r) { if (C.mode == "fault") one(r); else handles(r); }
MODULE("C06", any, NULL, NULL);
