// Shared machinery of the runtime monitors: seeded workloads, the reference
// model of a distributed graph, and the oracle that compares the library's
// observable state with the model.  Everything is judged through the public API.
#ifndef MON_COMMON_H
#define MON_COMMON_H
#include <mpi.h>
#include <stdint.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <array>
#include <functional>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>

typedef int64_t gidt;

// ---------------------------------------------------------------- random
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int below(int n) { return n <= 1 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }   // inclusive
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below((int)i)]);
  }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ull + 0x2545F4914F6CDD1Dull)); return r.next(); }
uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hashStr(const std::string& s) { return hashBytes(s.data(), s.size()); }

// ---------------------------------------------------------------- run context
struct Ctx {
  std::string prop, out, mode;
  std::string tier;
  uint64_t seed;          // VERIF_SEED
  int ncases, start, only;
  double budget;          // seconds for this process group
  int rank, np;           // world
  int caseIdx; uint64_t caseSeed;
  double t0;
  std::map<std::string, long> stats;      // per rank counters (summed)
  std::set<uint64_t> distinct;            // distinct non-trivial cases (rank 0)
  std::set<uint64_t> interleavings;       // distinct arrival orders seen (all ranks)
  std::vector<std::string> samples;
  long viols; int violsThisCase;
  FILE* log;
  std::string caseDesc;
};
extern Ctx C;
void viol(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* key, long n = 1);
void trivialCase();            // do not count the current case as non-trivial
void caseInfo(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void setCaseLimit(int seconds);
std::string scratch();         // per run scratch directory (exists on return, shared by ranks)
bool allOk(bool mine, MPI_Comm c = MPI_COMM_WORLD);

// a property module: one function running case C.caseIdx with C.caseSeed
typedef void (*CaseFn)(Rng&);
struct Module { const char* name; CaseFn fn; void (*init)(); void (*fini)(); };
#define MODULE(NAME, FN, INIT, FINI) extern const Module theModule = {NAME, FN, INIT, FINI}

// ---------------------------------------------------------------- PMPI perturbation
struct Perturb {
  bool on; double pSkip; double pDelay; int maxUs; bool pick; Rng rng;
  uint64_t orderHash; long sends, recvs, bytesSent, bytesRecv, open;   // open: sends not yet seen complete
};
extern Perturb PB;
void perturbStart(uint64_t seed, double pSkip, double pDelay, int maxUs, bool pick = true);
void perturbStop();            // records the arrival order seen

// captured library output
void captureStdout();          // redirect fd 1 to a memory file
std::string peekStdout();       // what was captured so far
std::string releaseStdout();
#endif
