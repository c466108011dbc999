// S03: no result depends on what fresh memory held.  Runs programs and writes down everything observable; check.py compares runs
// whose stack and heap were filled differently, and lets memcheck watch some of them.
#include "scen.h"
#include <sys/stat.h>
#include <unistd.h>
static uint64_t soil(int n) {           // leaves varying rubbish on the stack and in freed blocks
  volatile unsigned char b[4096]; unsigned char x = (unsigned char)(C.rank * 37 + n + (getenv("SOIL") ? atoi(getenv("SOIL")) : 0));
  for (int i = 0; i < 4096; i++) b[i] = x;
  std::vector<void*> v; for (int i = 0; i < 60; i++) { size_t k = 16 + (i * 53) % 3000; void* p = malloc(k); memset(p, x, k); v.push_back(p); } for (void* p : v) free(p);
  return b[n % 4096];
}
static void oneCase(Rng& r) {
  bool mem = C.mode == "memcheck"; uint64_t seed = r.next(); ScenOpts o; o.judge = false; scratch(); o.dir = strf("scr%d/c%d", C.np, C.caseIdx);   // names are part of what is written
  o.maxV = mem ? r.range(4, 24) : r.chance(0.6) ? 40 : C.tier == "quick" ? 150 : 500; o.maxT = r.chance(0.3) ? 7 : mem ? 3 : 4; o.verbosity = r.chance(0.5) ? 3 : -1;
  if (!C.rank) mkdir(o.dir.c_str(), 0700);
  PMPI_Barrier(MPI_COMM_WORLD);
  soil(C.caseIdx);
  std::string d; Trace t; scenario(seed, o, t, &d);
  caseInfo("%s", d.c_str());
  for (size_t i = 0; i < t.size(); i++) fprintf(C.log, "T %d %zu %016llx %s\n", C.caseIdx, i, (unsigned long long)t[i].h, t[i].name.c_str());
  fflush(C.log);
  note("programs"); note("outcomes", t.size());
  PMPI_Barrier(MPI_COMM_WORLD);
  if (!C.rank) rmdir(o.dir.c_str());
}
static void init() { if (chdir(C.out.c_str())) {} }
MODULE("S03", oneCase, init, NULL);
