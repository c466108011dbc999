// S01: valid use under address and undefined behaviour sanitizers, whatever the sizes, names, verbosity and logging.
#include "scen.h"
#include <engpar_support.h>
#include <pcu_io.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
using namespace agi;

// formatted output whose arguments overlap the buffer it writes to is undefined, and no sanitizer looks at it
static void overlap(const char* fn, const char* dst, size_t cap, const char* f, va_list ap0) {
  va_list ap; va_copy(ap, ap0); int n = vsnprintf(NULL, 0, f, ap); va_end(ap); if (n < 0) return;
  size_t len = std::min<size_t>(n + 1, cap);
  va_copy(ap, ap0); note("formatted_writes");
  for (const char* p = f; *p; p++) {
    if (*p != '%') continue;
    p++; if (*p == '%') continue;
    int l = 0; while (*p && strchr("-+ #0123456789.'", *p)) p++;
    if (*p == '*') break;
    while (*p && strchr("hlqLjzt", *p)) { if (*p == 'l' || *p == 'j' || *p == 'z' || *p == 't' || *p == 'q') l++; if (*p == 'L') l = 9; p++; }
    if (strchr("diouxXc", *p)) { if (l) va_arg(ap, long); else va_arg(ap, int); }
    else if (strchr("eEfFgGaA", *p)) { if (l == 9) va_arg(ap, long double); else va_arg(ap, double); }
    else if (*p == 's') { const char* s = va_arg(ap, const char*); if (s && s < dst + len && s + strlen(s) + 1 > dst) viol("%s writes \"%s\" into a buffer that one of its own arguments lies in", fn, f); }
    else if (*p == 'p') va_arg(ap, void*);
    else break;
  }
  va_end(ap);
}
extern "C" int __wrap_sprintf(char* d, const char* f, ...) { va_list ap; va_start(ap, f); overlap("sprintf", d, (size_t)1 << 40, f, ap); int n = vsprintf(d, f, ap); va_end(ap); return n; }
extern "C" int __wrap_snprintf(char* d, size_t c, const char* f, ...) { va_list ap; va_start(ap, f); overlap("snprintf", d, c, f, ap); int n = vsnprintf(d, c, f, ap); va_end(ap); return n; }

static void wipe(const std::string& d) {
  if (d.compare(0, C.out.size(), C.out)) return;
  DIR* D = opendir(d.c_str()); if (!D) return;
  while (dirent* e = readdir(D)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat s; lstat(p.c_str(), &s); if (S_ISDIR(s.st_mode)) wipe(p); else unlink(p.c_str()); }
  closedir(D); rmdir(d.c_str());
}
static void oneCase(Rng& r) {
  int v = r.range(-1, 3), dbg = r.chance(0.2), log = r.chance(0.5); size_t len = r.chance(0.5) ? 1 : r.range(20, 240); int deep = r.chance(0.2) ? r.range(2, 8) : 0; bool odd = r.chance(0.4);
  ScenOpts o; o.judge = false; o.verbosity = v; o.maxT = r.chance(0.4) ? 7 : 4; o.ordered = r.chance(0.8);
  o.maxV = r.chance(0.5) ? r.range(4, 60) : r.chance(0.8) ? r.range(60, 400) : C.tier == "quick" ? 1500 : 6000;
  std::string top = scratch() + strf("/c%d", C.caseIdx); if (!C.rank) mkdir(top.c_str(), 0700);
  o.dir = top + "/" + std::string(len, 'n'); if (!C.rank) mkdir(o.dir.c_str(), 0700);
  for (int i = 0; i < deep; i++) { o.dir += "/" + std::string(180, 'd'); if (!C.rank) mkdir(o.dir.c_str(), 0700); }
  PMPI_Barrier(MPI_COMM_WORLD);
  bool pert = r.chance(0.3); uint64_t ps = r.next();
  if (pert) perturbStart(ps, 0.3, 0.05, 50);
  EnGPar_Set_Verbosity(v);
  if (log) EnGPar_Open_Log();
  std::string d; Trace t; uint64_t seed = r.next();
  caseInfo("verbosity=%d log=%d names of %zu up to %d vertices seed %016llx", v, log, o.dir.size(), o.maxV, (unsigned long long)seed);
  if (dbg) { PCU_Debug_Open(); PCU_Debug_Print("case %d %s\n", C.caseIdx, o.dir.c_str()); }
  scenario(seed, o, t, &d);
  caseInfo("%s", d.c_str());
  if (odd) oddments(r);
  if (log) { if (!C.rank && !EnGPar_Is_Log_Open()) viol("the log is not open"); EnGPar_Close_Log(); }
  if (dbg) PCU_Debug_Print("end %s\n", std::string(500, 'x').c_str());
  if (pert) perturbStop();
  EnGPar_Set_Verbosity(-1);
  note("operations", t.size()); note(strf("verbosity_%d", v).c_str()); if (log) note("logged");
  fflush(stdout);
  PMPI_Barrier(MPI_COMM_WORLD);
  if (!C.rank) wipe(top);
  PMPI_Barrier(MPI_COMM_WORLD);
}
MODULE("S01", oneCase, NULL, NULL);
