// Reference model of a distributed graph, its generator, and the oracle which
// compares what the library reports through its public queries with the model.
#ifndef MON_MODEL_H
#define MON_MODEL_H
#include "common.h"
#include <ngraph.h>
#include <PCU.h>

struct MEdge { gidt id; double w; std::vector<int> pins; };     // pins: vertex indices; traditional: {src,dst}
struct Model {
  bool hyper, coords;
  int nt;
  std::string desc;
  std::vector<gidt> vgid;
  std::vector<double> vw;
  std::vector<std::array<double, 3> > xyz;
  std::vector<MEdge> e[8];
  std::unordered_map<gidt, int> vidx;
  bool unitVW, unitEW[8];
  int nv() const { return (int)vgid.size(); }
  long pinsOf(int t) const { long n = 0; for (auto& x : e[t]) n += x.pins.size(); return n; }
  void index() { vidx.clear(); for (int i = 0; i < nv(); i++) vidx[vgid[i]] = i; }
  int find(gidt g) const { auto it = vidx.find(g); return it == vidx.end() ? -1 : it->second; }
};
typedef std::vector<int> Owners;     // by vertex index

enum Topo { T_RING, T_LINE, T_GRIDN, T_GRIDS, T_RANDOM, T_STAR, T_BLOCKS, T_EMPTY, T_SINGLE, T_HUGE, T_NTOPO };
struct GenOpts {
  int minV, maxV, minT, maxT;
  int mode;            // -1 any, 0 traditional, 1 hyper
  int maxPins;
  bool zeroDeg;        // hyperedges without pins
  bool selfLoops, multiEdges;
  int sym;             // traditional: -1 any, 1 symmetric
  int ids;             // -1 any, 0 consecutive from 0, 1: < 2^31
  int weights;         // -1 any, 0 unit, 1 positive integers, 2 fractional positive
  int topo;            // -1 any
  int coords;          // -1 any
  GenOpts() : minV(1), maxV(60), minT(1), maxT(7), mode(-1), maxPins(8), zeroDeg(true), selfLoops(true), multiEdges(true),
              sym(-1), ids(-1), weights(-1), topo(-1), coords(-1) {}
};
Model genModel(Rng& r, const GenOpts& o = GenOpts());
int genSize(Rng& r, int small, int med, int large);
bool genBig(GenOpts& o, int every = 50);       // now and then a graph with counts beyond 16 bits
Owners genOwners(Rng& r, const Model& m, int np, int kind = -1);   // kind: 0 random 1 block 2 skew 3 empty ranks 4 all on one 5 striped
std::string ownDesc(const Owners&, int np);

enum Path { B_ONE, B_VEC, B_ARR, B_MIX, B_NPATH };
struct Build { int path; bool defVW, defEW; bool extraGhosts; uint64_t seed; int shuffle; };
Build genBuild(Rng& r);
agi::Ngraph* build(const Model& m, const Owners& own, const Build& b, agi::Ngraph* over = NULL, int firstType = 0);
agi::Ngraph* build(const Model& m, const Owners& own, Rng& r);
// can this model be built by the single-call constructor?
bool oneCallOk(const Model& m);

struct CheckOpts { bool order, ghostW, edgesOf, residence, counts; MPI_Comm comm; const char* when; const std::set<int>* ghosts;  // ghosts: exact expected ghost set, if not the off-part ends
  CheckOpts(const char* w = "") : order(false), ghostW(true), edgesOf(true), residence(true), counts(true), comm(MPI_COMM_WORLD), when(w), ghosts(NULL) {} };
// compares the whole state of g on this process with the model; collective on o.comm
bool checkDistributed(agi::Ngraph* g, const Model& m, const Owners& own, const CheckOpts& o);
// where is every vertex now? collective.  Reports lost/duplicated/foreign vertices.
bool gatherOwners(agi::Ngraph* g, const Model& m, Owners& own, MPI_Comm comm, const char* when);
// order independent content hash of the local part (all observable contents), for differential runs
uint64_t localDigest(agi::Ngraph* g, bool withGhostW = true);
uint64_t globalDigest(agi::Ngraph* g, bool withGhostW, MPI_Comm c);

// migrate so that every vertex goes where `to` says, through repartition() or a migration plan
void migrateTo(agi::Ngraph* g, const Model& m, const Owners& to, int how);
std::set<int> expectedGhosts(const Model& m, const Owners& own, int rank);
// helpers
int self(); int peers();
std::vector<int> heldEdges(const Model& m, const Owners& own, int t, int rank);
inline bool feq(double a, double b, double tol = 1e-9) { return a == b || fabs(a - b) <= tol * std::max(1.0, std::max(fabs(a), fabs(b))); }
std::vector<gidt> allgatherv(const std::vector<gidt>& mine, MPI_Comm c, std::vector<int>* counts = NULL);
#endif
