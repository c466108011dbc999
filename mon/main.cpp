#include "common.h"
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/mman.h>
#ifndef NO_ENGPAR
#include <engpar_support.h>
#else
#include <PCU.h>
#endif

#ifdef USE_CENGPAR
#include <cengpar.h>
#endif
Ctx C;
extern const Module theModule;

uint64_t hashBytes(const void* p, size_t n, uint64_t h) {
  const unsigned char* b = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
  return h;
}
std::string strf(const char* fmt, ...) {
  char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b;
}
void viol(const char* fmt, ...) {
  C.viols++;
  if (C.violsThisCase++ > 12) return;
  char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  for (char* q = b; *q; q++) if (*q == '\n') *q = ' ';
  fprintf(C.log, "V case=%d np=%d rank=%d | %s | %s\n", C.caseIdx, C.np, C.rank, b, C.caseDesc.c_str());
  fflush(C.log);
}
void note(const char* k, long n) { C.stats[k] += n; }
static bool caseTrivial;
void trivialCase() { caseTrivial = true; }
void caseInfo(const char* fmt, ...) {
  char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (!C.caseDesc.empty()) C.caseDesc += " ";
  C.caseDesc += b;
  fprintf(C.log, "I case=%d %s\n", C.caseIdx, b); fflush(C.log);
}
bool allOk(bool mine, MPI_Comm c) {
  int a = mine, b = 0; PMPI_Allreduce(&a, &b, 1, MPI_INT, MPI_MIN, c); return b;
}
static int caseLimit = 40;
void setCaseLimit(int s) { alarm(s); }
static void onAlarm(int) {
  char b[200]; int n = snprintf(b, sizeof b, "H case=%d np=%d rank=%d\n", C.caseIdx, C.np, C.rank);
  if (write(fileno(C.log), b, n)) {}
  _exit(97);
}
static void onTerm(int) { _exit(98); }
std::string scratch() {
  std::string d = C.out + strf("/scr%d", C.np);
  mkdir(d.c_str(), 0700);
  return d;
}
static int savedFd = -1, memFd = -1;
void captureStdout() {
  fflush(stdout);
  savedFd = dup(1);
  if (memFd < 0) memFd = memfd_create("cap", 0);
  if (ftruncate(memFd, 0)) {}
  lseek(memFd, 0, SEEK_SET);
  dup2(memFd, 1);
}
std::string peekStdout() {
  fflush(stdout);
  struct stat st; off_t n = fstat(memFd, &st) ? 0 : st.st_size;
  std::string s(n, 0);
  if (n && pread(memFd, &s[0], n, 0) < 0) s.clear();
  return s;
}
std::string releaseStdout() {
  fflush(stdout);
  dup2(savedFd, 1); close(savedFd); savedFd = -1;
  off_t n = lseek(memFd, 0, SEEK_END);
  std::string s(n, 0);
  if (n && pread(memFd, &s[0], n, 0) < 0) s.clear();
  return s;
}

int main(int argc, char** argv) {
  C.seed = 1; C.ncases = 10; C.start = 0; C.only = -1; C.budget = 1e9; C.tier = "quick";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--seed") C.seed = strtoull(argv[++i], 0, 10);
    else if (a == "--cases") C.ncases = atoi(argv[++i]);
    else if (a == "--start") C.start = atoi(argv[++i]);
    else if (a == "--only") C.only = atoi(argv[++i]);
    else if (a == "--budget") C.budget = atof(argv[++i]);
    else if (a == "--out") C.out = argv[++i];
    else if (a == "--tier") C.tier = argv[++i];
    else if (a == "--mode") C.mode = argv[++i];
    else if (a == "--limit") caseLimit = atoi(argv[++i]);
  }
  C.prop = theModule.name;
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &C.rank);
  MPI_Comm_size(MPI_COMM_WORLD, &C.np);
  C.log = fopen((C.out + strf("/np%d.r%d.log", C.np, C.rank)).c_str(), "a");
  if (!C.log) { perror("log"); MPI_Abort(MPI_COMM_WORLD, 3); }
  signal(SIGALRM, onAlarm); signal(SIGTERM, onTerm);
#ifndef NO_ENGPAR
#ifdef USE_CENGPAR
  cengpar_initialize();
#else
  EnGPar_Initialize(-1);
#endif
  EnGPar_Set_Verbosity(-1);
#else
  PCU_Comm_Init();
#endif
  C.t0 = MPI_Wtime();
  if (theModule.init) theModule.init();
  int done = 0, longestCase = -1; double longest = 0;
  int a = C.only >= 0 ? C.only : C.start, b = C.only >= 0 ? C.only + 1 : C.start + C.ncases;
  for (int i = a; i < b; i++) {
    int stop = C.rank == 0 && MPI_Wtime() - C.t0 > C.budget;
    PMPI_Bcast(&stop, 1, MPI_INT, 0, MPI_COMM_WORLD);
    if (stop) break;
    C.caseIdx = i; C.violsThisCase = 0; C.caseDesc.clear(); caseTrivial = false;
    C.caseSeed = mix(mix(C.seed, hashStr(C.prop)), (uint64_t)i * 64 + C.np);
    fprintf(C.log, "C case=%d\n", i); fflush(C.log);
    alarm(caseLimit);
    double tc = MPI_Wtime();
    Rng r(C.caseSeed);
    theModule.fn(r);
    PMPI_Barrier(MPI_COMM_WORLD);
    alarm(0);
    tc = MPI_Wtime() - tc; if (tc > longest) { longest = tc; longestCase = i; }
    done++;
    if (C.rank == 0 && !caseTrivial) {
      C.distinct.insert(hashStr(C.caseDesc + strf("np%d", C.np)));
      if (C.samples.size() < 6) C.samples.push_back(strf("np=%d case=%d ", C.np, i) + C.caseDesc);
    }
  }
  if (theModule.fini) theModule.fini();
  // merge statistics
  std::set<std::string> keys;
  for (auto& k : C.stats) keys.insert(k.first);
  std::string mine; for (auto& k : C.stats) mine += strf("S %s %ld\n", k.first.c_str(), k.second);
  fputs(mine.c_str(), C.log);
  for (auto h : C.interleavings) fprintf(C.log, "O %016llx\n", (unsigned long long)h);
  if (C.rank == 0) {
    fprintf(C.log, "D %d\n", done);
    fprintf(C.log, "L %d %d %d\n", (int)(longest * 1000), C.np, longestCase);
    for (auto h : C.distinct) fprintf(C.log, "U %016llx\n", (unsigned long long)h);
    for (auto& s : C.samples) fprintf(C.log, "X %s\n", s.c_str());
  }
  fprintf(C.log, "E %ld\n", C.viols);
  fclose(C.log);
#ifdef USE_CENGPAR
  cengpar_finalize();
#elif !defined(NO_ENGPAR)
  EnGPar_Finalize();
#else
  PCU_Comm_Free();
#endif
  MPI_Finalize();
  return 0;
}
