// S02: repeating a complete cycle leaves nothing behind: allocations of the library, open files, communicators, unfinished sends.
#include "scen.h"
#include <cengpar.h>
#include <engpar_support.h>
#include <pcu_io.h>
#include <execinfo.h>
#include <dlfcn.h>
#include <dirent.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/stat.h>
extern "C" {
#include <noto_malloc.h>
int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*));
void __sanitizer_symbolize_pc(void* pc, const char* fmt, char* out, size_t n);
}
using namespace agi;

// ---- live allocations, each with the frames that made it
static const int ND = 12;
struct Site { void* pc[ND]; int n; bool operator<(const Site& o) const { return n != o.n ? n < o.n : memcmp(pc, o.pc, n * sizeof(void*)) < 0; } };
struct Block { size_t size; int site; };
static bool tracking, inside; static pthread_t mainThread;
static std::unordered_map<const volatile void*, Block>* live; static std::map<Site, int>* sites; static std::vector<Site>* siteList; static std::vector<long>* liveOf; static std::vector<long>* bytesOf;
static long allocs;
enum Where { SKIP, EXE, PARTITIONER, OTHER };
static Where where(void* pc) {
  static std::map<uintptr_t, Where>* cache = new std::map<uintptr_t, Where>;
  uintptr_t page = (uintptr_t)pc >> 12; auto it = cache->find(page); if (it != cache->end()) return it->second;
  Dl_info d; Where w = OTHER;
  if (dladdr(pc, &d) && d.dli_fname) {
    const char* f = d.dli_fname;
    if (strstr(f, "libasan") || strstr(f, "libubsan") || strstr(f, "libstdc++") || strstr(f, "libc.so") || strstr(f, "libgcc_s")) w = SKIP;
    else if (strstr(f, "/s02-")) w = EXE;
    else if (strstr(f, "zoltan") || strstr(f, "metis")) w = PARTITIONER;
  }
  return (*cache)[page] = w;
}
static void onMalloc(const volatile void* p, size_t n) {
  if (!tracking || inside || !p || !pthread_equal(pthread_self(), mainThread)) return;
  inside = true; allocs++;
  void* bt[22]; int k = backtrace(bt, 22), i = 0;
  // at the top: the sanitizer's backtrace, this hook, the sanitizer's allocator
  while (i < k && where(bt[i]) == SKIP) i++;
  if (i < k) i++;
  while (i < k && where(bt[i]) == SKIP) i++;
  Where w = i < k ? where(bt[i]) : OTHER;
  if (w == EXE || w == PARTITIONER) {
    Site s; memset(&s, 0, sizeof s); for (; i < k && s.n < ND; i++) if (where(bt[i]) == EXE || !s.n) s.pc[s.n++] = bt[i];
    auto r = sites->insert(std::make_pair(s, (int)siteList->size()));
    if (r.second) { siteList->push_back(s); liveOf->push_back(0); bytesOf->push_back(0); }
    int id = r.first->second; (*live)[p] = {n, id}; (*liveOf)[id]++; (*bytesOf)[id] += n;
  }
  inside = false;
}
static void onFree(const volatile void* p) {
  if (!p || inside || !live) return;
  if (!pthread_equal(pthread_self(), mainThread)) return;
  inside = true;
  auto it = live->find(p);
  if (it != live->end()) { (*liveOf)[it->second.site]--; (*bytesOf)[it->second.site] -= it->second.size; live->erase(it); }
  inside = false;
}
static std::string symbol(void* pc) { char b[1024]; b[0] = 0; __sanitizer_symbolize_pc((char*)pc - 1, "%f %s", b, sizeof b); return b; }
// the library function that made the allocation; "" if the monitor itself did
static std::string maker(const Site& s) {
  std::string r; int seen = 0;
  for (int i = 0; i < s.n; i++) {
    std::string y = symbol(s.pc[i]);
    if (where(s.pc[i]) == PARTITIONER) { if (!i) r = "the partitioner"; continue; }
    if (y.find("/usr/") != std::string::npos || y.find("<null>") != std::string::npos) continue;
    if (y.find("/mon/") != std::string::npos) return seen ? r : "";
    size_t a = y.find(" /"); std::string f = y.substr(0, a), file = a == std::string::npos ? "" : y.substr(y.rfind('/') + 1);
    if (seen++ < 4) r += (r.empty() ? "" : " < ") + f.substr(0, f.find('(')) + " (" + file + ")";
  }
  return seen ? r : "";
}

// ---- MPI objects
static long comms, groups, types, ops;
extern "C" {
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n) { int rc = PMPI_Comm_dup(c, n); if (*n != MPI_COMM_NULL) comms++; return rc; }
int MPI_Comm_split(MPI_Comm c, int col, int key, MPI_Comm* n) { int rc = PMPI_Comm_split(c, col, key, n); if (*n != MPI_COMM_NULL) comms++; return rc; }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm* n) { int rc = PMPI_Comm_create(c, g, n); if (*n != MPI_COMM_NULL) comms++; return rc; }
int MPI_Comm_free(MPI_Comm* c) { if (*c != MPI_COMM_NULL) comms--; return PMPI_Comm_free(c); }
int MPI_Comm_group(MPI_Comm c, MPI_Group* g) { groups++; return PMPI_Comm_group(c, g); }
int MPI_Group_incl(MPI_Group a, int n, const int* r, MPI_Group* g) { groups++; return PMPI_Group_incl(a, n, r, g); }
int MPI_Group_free(MPI_Group* g) { groups--; return PMPI_Group_free(g); }
int MPI_Type_contiguous(int n, MPI_Datatype a, MPI_Datatype* b) { types++; return PMPI_Type_contiguous(n, a, b); }
int MPI_Type_create_struct(int n, const int* l, const MPI_Aint* d, const MPI_Datatype* a, MPI_Datatype* b) { types++; return PMPI_Type_create_struct(n, l, d, a, b); }
int MPI_Type_free(MPI_Datatype* t) { types--; return PMPI_Type_free(t); }
int MPI_Op_create(MPI_User_function* f, int c, MPI_Op* o) { ops++; return PMPI_Op_create(f, c, o); }
int MPI_Op_free(MPI_Op* o) { ops--; return PMPI_Op_free(o); }
}
static long openFiles() { long n = 0; DIR* d = opendir("/proc/self/fd"); while (dirent* e = readdir(d)) { char b[512]; std::string p = std::string("/proc/self/fd/") + e->d_name; ssize_t k = readlink(p.c_str(), b, 511); if (k > 0) { b[k] = 0; if (b[0] == '/' && strncmp(b, "/dev/", 5)) n++; } } closedir(d); return n; }

// ---- cycles
static void interfaceCycle(Rng& r) {
  GenOpts o; o.zeroDeg = false; o.maxV = 50; o.ids = 1; o.coords = 0; Model m = genModel(r, o); Owners own = genOwners(r, m, C.np);
  cengpar_setftncommunicator(MPI_Comm_c2f(MPI_COMM_WORLD));
  ngraph g = cengpar_createEmptyGraph();
  std::vector<agi::gid_t> v, ge; std::vector<wgt_t> w; std::vector<part_t> go; std::map<gidt, int> gh;
  for (int i = 0; i < m.nv(); i++) if (own[i] == C.rank) { v.push_back(m.vgid[i]); w.push_back(m.vw[i]); }
  cengpar_constructVerts(g, m.hyper, v.data(), w.data(), (int)v.size());
  for (int t = 0; t < m.nt; t++) {
    std::vector<agi::gid_t> e, p; std::vector<lid_t> d; std::vector<wgt_t> ew;
    for (int x : heldEdges(m, own, t, C.rank)) { auto& E = m.e[t][x]; e.push_back(E.id); d.push_back((int)E.pins.size()); ew.push_back(E.w); for (int q : E.pins) { p.push_back(m.vgid[q]); if (own[q] != C.rank) gh[m.vgid[q]] = own[q]; } }
    cengpar_constructEdges(g, e.data(), d.data(), ew.data(), p.data(), (int)e.size(), (int)p.size());
  }
  for (auto& x : gh) { ge.push_back(x.first); go.push_back(x.second); }
  cengpar_constructGhosts(g, ge.data(), go.data(), (int)ge.size());
  cengpar_checkValidity(g); ((Ngraph*)g)->setOriginalOwners();
  captureStdout(); cengpar_evaluatePartition(g); releaseStdout();
  engparInput in = cengpar_createDiffusiveInput(g, 0.1); cengpar_addPriority(in, -1, 1.05); if (r.chance(0.5)) cengpar_addPriority(in, 0, 1.1); cengpar_balanceGhosts(in, r.chance(0.3)); if (r.chance(0.3)) cengpar_setCutGrowthFactor(in, 1.5);
  cengpar_balance(in, -1);
  { PartitionMap* pm = ((Ngraph*)g)->getPartition(); int k = (int)pm->size(); delete pm; std::vector<agi::gid_t> a(k); std::vector<part_t> b(k); cengpar_getPartition(g, a.data(), b.data(), k); }
  std::string f = scratch() + "/if"; cengpar_saveToFile(g, f.c_str()); PCU_Barrier(); cengpar_loadFromFile(g, f.c_str()); PCU_Barrier();
  unlink((f + strf("_%d.bgd", C.rank)).c_str());
  cengpar_destroyGraph(g);
}
static void messageCycle(Rng& r) {
  int n = r.range(1, 12);
  for (int k = 0; k < n; k++) {
    int how = r.below(5); uint64_t s = r.next(); Rng q(s + C.rank);
    if (how == 0) { MPI_Comm c; int col = C.rank % r.range(1, C.np); PMPI_Comm_split(MPI_COMM_WORLD, col, C.rank, &c); for (int i = 0; i < 20; i++) { PCU_Switch_Comm(c); PCU_Add_Int(1); PCU_Switch_Comm(MPI_COMM_WORLD); } PMPI_Comm_free(&c); note("switches", 40); }
    else if (how == 1) { PCU_Comm_Free(); PCU_Comm_Init(); note("reinitialised"); }
    else if (how == 2) { PCU_Comm_Start(PCU_GLOBAL_METHOD); int t = q.below(6); for (int i = 0; i < t; i++) { char b[300]; memset(b, 1, 300); PCU_Comm_Write(q.below(C.np), b, q.below(300)); } PCU_Comm_Send(); int from; void* d; size_t z; while (PCU_Comm_Read(&from, &d, &z)) {} }
    else { PCU_Comm_Order(how == 3); PCU_Comm_Begin(); int t = q.below(8); for (int i = 0; i < t; i++) { std::vector<char> b(q.chance(0.1) ? 100000 : q.below(500)); PCU_Comm_Pack(q.below(C.np), b.data(), b.size()); } PCU_Comm_Send();
      while (PCU_Comm_Listen()) { size_t z; PCU_Comm_Received(&z); while (!PCU_Comm_Unpacked()) { char c; PCU_Comm_Unpack(&c, 1); if (q.chance(0.01)) { size_t left; PCU_Comm_Received(&left); } } } PCU_Comm_Order(true); }
    double x[5] = {1, 2, 3, 4, 5}; PCU_Add_Doubles(x, 5); PCU_Max_Double(x[0]); PCU_Barrier(); PCU_Exscan_Int(1);
    note("phases");
  }
  std::string p = scratch() + strf("/m%d", C.rank); pcu_file* f = pcu_fopen(p.c_str(), true, false); unsigned u[3] = {1, 2, 3}; double d[2] = {1, 2}; pcu_write_unsigneds(f, u, 3); pcu_write_doubles(f, d, 2); pcu_write_string(f, p.c_str()); pcu_fclose(f);
  f = pcu_fopen(p.c_str(), false, false); pcu_read_unsigneds(f, u, 3); pcu_read_doubles(f, d, 2); char* s; pcu_read_string(f, &s); noto_free(s); pcu_fclose(f); unlink(p.c_str());
  FILE* h = pcu_open_parallel(p.c_str(), "x"); if (h) { fclose(h); unlink((p + strf("%d.x", C.rank)).c_str()); }
}
static void lifeCycle(Rng& r) {
  EnGPar_Finalize(); EnGPar_Initialize(-1);
  PCU_Debug_Open(); PCU_Debug_Print("x"); PCU_Comm_Free(); PCU_Comm_Init();      // the debug file belongs to the layer
  EnGPar_Open_Log(); if (r.chance(0.5)) { char b[] = "f\n"; if (EnGPar_Is_Log_Open()) { EnGPar_Log_Function(b); EnGPar_End_Function(); } } EnGPar_Close_Log();
  unlink(strf("debug%d.txt", C.rank).c_str());
}
static void oneCase(Rng& r) {
  int kind = r.below(12); uint64_t seed = r.next(); const int M = 4, W = 2; ScenOpts o; o.judge = false; o.dir = scratch() + strf("/c%d", C.caseIdx); o.maxV = r.chance(0.7) ? 40 : C.tier == "quick" ? 120 : 400; o.maxT = r.chance(0.3) ? 7 : 3;
  bool log = r.chance(0.3); int verb = r.chance(0.2) ? r.range(0, 3) : -1; o.verbosity = verb; o.ordered = r.chance(0.8);
  mkdir(o.dir.c_str(), 0700); PMPI_Barrier(MPI_COMM_WORLD);
  std::string d; Trace t; t.reserve(1000);
  const char* names[] = {"interface", "messages", "life", "objects", "program"}; int what = std::min(kind, 4);
  caseInfo("%s cycle seed %016llx", names[what], (unsigned long long)seed);
  inside = true; live->clear(); sites->clear(); siteList->clear(); liveOf->clear(); bytesOf->clear(); inside = false; tracking = true;
  std::vector<std::vector<long> > hist; std::vector<std::array<long, 6> > objs;
  inside = true; hist.resize(M + W); for (auto& h : hist) h.reserve(100000); objs.resize(M + W); inside = false;
  note("cycles", 0); long a0 = allocs;
  for (int c = 0; c < M + W; c++) {
    { Rng q(seed);
      EnGPar_Set_Verbosity(verb); if (log) EnGPar_Open_Log();
      switch (what) { case 0: interfaceCycle(q); break; case 1: messageCycle(q); break; case 2: lifeCycle(q); break; case 3: oddments(q); break; default: { scenario(seed, o, t, &d); Trace().swap(t); std::string().swap(d); } }
      if (log) EnGPar_Close_Log(); EnGPar_Set_Verbosity(-1); }
    fflush(stdout); PMPI_Barrier(MPI_COMM_WORLD);
    inside = true; hist[c].assign(liveOf->begin(), liveOf->end()); objs[c] = {openFiles(), comms, groups, types, ops, PB.open}; inside = false;
    note("cycles");
  }
  tracking = false;
  note("allocations_followed", allocs - a0); note("allocation_sites", siteList->size());
  long total = 0;
  for (size_t s = 0; s < siteList->size(); s++) {
    bool grows = true; long first = s < hist[W - 1].size() ? hist[W - 1][s] : 0, prev = first;
    for (int c = W; c < W + M; c++) { long n = s < hist[c].size() ? hist[c][s] : 0; if (n <= prev) grows = false; prev = n; }
    total += prev;
    if (!grows) continue;
    std::string who = maker((*siteList)[s]);
    if (who.empty()) { note("growth_of_the_monitor"); continue; }
    viol("every cycle leaves %ld more allocations (%ld bytes live) made by %s", (prev - first) / M, (*bytesOf)[s], who.c_str());
  }
  const char* on[] = {"open files", "communicators", "process groups", "MPI types", "MPI operations", "unfinished sends"};
  for (int k = 0; k < 6; k++) {
    bool grows = true; for (int c = W; c < W + M; c++) if (objs[c][k] <= objs[c - 1][k]) grows = false;
    if (grows) viol("every cycle leaves %ld more %s", (objs[W + M - 1][k] - objs[W - 1][k]) / M, on[k]);
  }
  note("live_at_end", total); note("cycles_judged");
  PMPI_Barrier(MPI_COMM_WORLD);
  if (!C.rank) rmdir(o.dir.c_str());
}
static void init() {
  void* b[8]; backtrace(b, 8); mainThread = pthread_self();
  live = new std::unordered_map<const volatile void*, Block>; sites = new std::map<Site, int>; siteList = new std::vector<Site>; liveOf = new std::vector<long>; bytesOf = new std::vector<long>;
  __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
}
MODULE("S02", oneCase, init, NULL);
