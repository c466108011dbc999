// C02: collectives give every process the combination of each contribution exactly once; barriers hold.
#include "common.h"
#include <PCU.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <limits.h>
#include <float.h>

static volatile int* page;        // shared by the processes: entries into each barrier
static const int NB = 4096;
static void init() {
  std::string f = scratch() + "/shared";
  for (int turn = 0; turn < 2; turn++) {
    if ((turn == 0) == (C.rank == 0)) {
      int fd = open(f.c_str(), O_RDWR | O_CREAT, 0600);
      if (turn == 0 && ftruncate(fd, NB * sizeof(int))) {}
      page = (volatile int*)mmap(NULL, NB * sizeof(int), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      close(fd);
    }
    PMPI_Barrier(MPI_COMM_WORLD);
  }
}
template <class T> static std::string show(T x);
template <> std::string show(double x) { return strf("%.17g", x); }
template <> std::string show(int x) { return strf("%d", x); }
template <> std::string show(long x) { return strf("%ld", x); }
template <> std::string show(size_t x) { return strf("%zu", x); }

enum { ADD, MINI, MAXI, EXSCAN };
// values: contribution of process p to entry i, a function everybody can evaluate
static double dval(uint64_t key, int kind, int p, size_t i) {
  Rng r(mix(mix(key, p), i));
  switch (kind) {
    case 0: return (double)r.range(-1000000, 1000000);                       // exact sums
    case 1: return ldexp(r.unit() - 0.5, r.range(-30, 30));
    case 2: { static const double s[] = {INFINITY, -INFINITY, DBL_MAX, -DBL_MAX, DBL_MIN, -DBL_MIN, 0.0, 1.0, -1.0, 4.9e-324}; return s[r.below(10)]; }
    default: return p == (int)(i % 3) ? 1.0 : 0.0;
  }
}
static long lval(uint64_t key, int kind, int p, size_t i, long lim, bool ext) {
  Rng r(mix(mix(key, p), i));
  switch (kind) {
    case 0: return (long)(r.next() % (uint64_t)(2 * (lim / 2) + 1)) - lim / 2;
    case 1: return p;
    case 2: { long s[] = {lim, -lim, ext ? -lim - 1 : 0, 0, 1, -1, lim - 1}; return s[r.below(7)]; }
    default: return r.range(-20, 20);
  }
}
template <class T, class F> static void judge(const char* what, int op, size_t n, const std::vector<T>& got, F val, int np, int rank, long tagNo) {
  for (size_t i = 0; i < n; i++) {
    T e;
    if (op == EXSCAN) { e = 0; for (int p = 0; p < rank; p++) e += val(p, i); }
    else { e = val(0, i); for (int p = 1; p < np; p++) { T x = val(p, i); if (op == ADD) e += x; else if (op == MINI) e = std::min(e, x); else e = std::max(e, x); } }
    if (!(got[i] == e)) {
      viol("%s (collective %ld), entry %zu of %zu: %s instead of %s on %d of %d", what, tagNo, i, n, show<T>(got[i]).c_str(), show<T>(e).c_str(), rank, np);
      return;
    }
  }
  note("entries_judged", n);
}

static void round(Rng& r, Rng& lr, int np, int rank, MPI_Comm comm, bool skew, int& bars, bool world) {
  int what = r.below(14); uint64_t key = r.next(); int kind = r.below(4), lk = r.below(12); size_t n;
  if (lk == 0) n = 0; else if (lk < 5) n = 1; else if (lk < 9) n = r.range(2, 9); else if (lk < 11) n = r.range(10, 700); else n = r.range(1000, 20000);
  bool scalar = r.chance(0.3); if (scalar) n = 1;
  if (skew && lr.chance(0.3)) usleep(lr.below(800));
  static long no = 0; no++;
  note("collectives");
  if (what < 3) {                               // doubles
    int op = what; if (op == ADD && kind == 2) kind = 0;
    bool rough = op == ADD && kind == 1;
    auto val = [&](int p, size_t i) { return dval(key, kind, p, i); };
    std::vector<double> a(n + 2, 12345.5); for (size_t i = 0; i < n; i++) a[i] = val(rank, i);
    if (scalar) a[0] = op == ADD ? PCU_Add_Double(a[0]) : op == MINI ? PCU_Min_Double(a[0]) : PCU_Max_Double(a[0]);
    else if (op == ADD) PCU_Add_Doubles(a.data(), n); else if (op == MINI) PCU_Min_Doubles(a.data(), n); else PCU_Max_Doubles(a.data(), n);
    if (a[n] != 12345.5) viol("doubles: wrote past the end");
    if (rough) {                                // any order of adding is right, but it is the same number for everyone
      std::vector<double> z(a.begin(), a.begin() + n), root = z;
      if (n) PMPI_Bcast(root.data(), (int)n, MPI_DOUBLE, 0, comm);
      for (size_t i = 0; i < n; i++) {
        double e = 0, m = 0; for (int p = 0; p < np; p++) { e += val(p, i); m += fabs(val(p, i)); }
        if (!(fabs(a[i] - e) <= 1e-14 * np * m)) { viol("sum of doubles, entry %zu of %zu: %.17g instead of %.17g", i, n, a[i], e); break; }
        if (memcmp(&root[i], &z[i], 8)) { viol("sum of doubles, entry %zu of %zu: %.17g here, %.17g on the first process", i, n, z[i], root[i]); break; }
      }
      note("entries_judged", n);
    } else judge<double>(op == ADD ? "sum of doubles" : op == MINI ? "minimum of doubles" : "maximum of doubles", op, n, a, val, np, rank, no);
  } else if (what < 6 || what == 6) {           // ints
    int op = what - 3; bool sum = op == ADD || op == EXSCAN;
    long lim = sum ? INT_MAX / (np + 1) : INT_MAX;
    auto val = [&](int p, size_t i) { return (int)lval(key, kind, p, i, lim, !sum); };
    std::vector<int> a(n + 2, 777); for (size_t i = 0; i < n; i++) a[i] = val(rank, i);
    if (scalar) a[0] = op == ADD ? PCU_Add_Int(a[0]) : op == MINI ? PCU_Min_Int(a[0]) : op == MAXI ? PCU_Max_Int(a[0]) : PCU_Exscan_Int(a[0]);
    else if (op == ADD) PCU_Add_Ints(a.data(), n); else if (op == MINI) PCU_Min_Ints(a.data(), n); else if (op == MAXI) PCU_Max_Ints(a.data(), n); else PCU_Exscan_Ints(a.data(), n);
    if (a[n] != 777) viol("ints: wrote past the end");
    judge<int>(op == ADD ? "sum of ints" : op == MINI ? "minimum of ints" : op == MAXI ? "maximum of ints" : "prefix sum of ints", op, n, a, val, np, rank, no);
  } else if (what < 9) {                        // longs
    int op = what == 7 ? ADD : EXSCAN; long lim = LONG_MAX / (np + 1);
    auto val = [&](int p, size_t i) { return lval(key, kind, p, i, lim, false); };
    std::vector<long> a(n + 2, 777); for (size_t i = 0; i < n; i++) a[i] = val(rank, i);
    if (scalar) a[0] = op == ADD ? PCU_Add_Long(a[0]) : PCU_Exscan_Long(a[0]);
    else if (op == ADD) PCU_Add_Longs(a.data(), n); else PCU_Exscan_Longs(a.data(), n);
    if (a[n] != 777) viol("longs: wrote past the end");
    judge<long>(op == ADD ? "sum of longs" : "prefix sum of longs", op, n, a, val, np, rank, no);
  } else if (what < 12) {                       // sizes
    int op = what - 9;
    auto val = [&](int p, size_t i) { return (size_t)lval(key, kind, p, i, LONG_MAX, true); };
    std::vector<size_t> a(n + 2, 777); for (size_t i = 0; i < n; i++) a[i] = val(rank, i);
    if (scalar) a[0] = op == ADD ? PCU_Add_SizeT(a[0]) : op == MINI ? PCU_Min_SizeT(a[0]) : PCU_Max_SizeT(a[0]);
    else if (op == ADD) PCU_Add_SizeTs(a.data(), n); else if (op == MINI) PCU_Min_SizeTs(a.data(), n); else PCU_Max_SizeTs(a.data(), n);
    if (a[n] != 777) viol("sizes: wrote past the end");
    judge<size_t>(op == ADD ? "sum of sizes" : op == MINI ? "minimum of sizes" : "maximum of sizes", op, n, a, val, np, rank, no);
  } else if (what == 12) {                      // logical
    bool isOr = r.chance(0.5); double p1 = r.chance(0.5) ? 1.0 / np : r.chance(0.5) ? 1 - 0.5 / np : 0.5; bool wide = r.chance(0.3);
    auto val = [&](int p) { Rng q(mix(key, p)); bool t = q.chance(p1); int v = q.range(-5, 5); if (!v) v = 6; return t ? (wide ? v : 1) : 0; };
    bool e = !isOr; for (int p = 0; p < np; p++) { if (isOr) e = e || val(p); else e = e && val(p); }
    int g = isOr ? PCU_Or(val(rank)) : PCU_And(val(rank));
    if ((g != 0) != e) viol("logical %s is %d, should be %s", isOr ? "or" : "and", g, e ? "true" : "false");
    note("logical");
  } else if (world) {                           // barrier: nobody leaves before everybody came
    int b = bars++ % NB;
    if (lr.chance(0.5)) usleep(lr.below(3000));
    __sync_fetch_and_add(&page[b], 1);
    PCU_Barrier();
    int in = page[b];
    if (in != np) viol("released from barrier %d with %d of %d entered", b, in, np);
    note("barriers");
  } else PCU_Barrier();
}

static void oneCase(Rng& r) {
  int n = r.range(5, 40); bool perturb = r.chance(0.7), skew = r.chance(0.4); int subs = r.chance(0.3) ? r.range(1, 3) : 0;
  caseInfo("collectives=%d perturb=%d skew=%d subgroups=%d", n, perturb, skew, subs);
  if (C.rank == 0) memset((void*)page, 0, NB * sizeof(int));
  PMPI_Barrier(MPI_COMM_WORLD);
  double sk = r.unit() * 0.8; int us = r.range(1, 200); uint64_t ps = r.next(), ls = r.next();
  if (perturb) perturbStart(ps, sk, 0.2, us);
  Rng lr(mix(ls, C.rank)); int bars = 0;
  for (int i = 0; i < n; i++) round(r, lr, C.np, C.rank, MPI_COMM_WORLD, skew, bars, true);
  for (int s = 0; s < subs; s++) {              // groups of other sizes and other numberings
    int cut = r.range(1, C.np); uint64_t gk = r.next(); int m = r.range(3, 15);
    MPI_Comm c; Rng kr(mix(gk, C.rank));
    bool first = (int)(mix(gk, 5) % 2) ? C.rank < cut : C.rank >= C.np - cut;
    MPI_Comm_split(MPI_COMM_WORLD, first, kr.below(1000), &c);
    PCU_Switch_Comm(c);
    int gn, gr; MPI_Comm_size(c, &gn); MPI_Comm_rank(c, &gr);
    Rng gr2(mix(gk, first));
    for (int i = 0; i < m; i++) round(gr2, lr, gn, gr, c, skew, bars, false);
    PCU_Switch_Comm(MPI_COMM_WORLD);
    MPI_Comm_free(&c);
    note("subgroups");
  }
  perturbStop();
}
MODULE("C02", oneCase, init, NULL);
