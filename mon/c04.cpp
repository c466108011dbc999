// C04: results do not depend on message timing.
#include "scen.h"
#include <unistd.h>
#include <sys/stat.h>
static void oneCase(Rng& r) {
  uint64_t seed = r.next(); int variants = r.range(2, 4); ScenOpts o; o.fresh = true; o.dir = scratch() + strf("/c%d", C.caseIdx); o.maxV = r.chance(0.6) ? 40 : C.tier == "quick" ? 120 : 500;
  if (!C.rank) mkdir(o.dir.c_str(), 0700);
  PMPI_Barrier(MPI_COMM_WORLD);
  std::string d; Trace base; bool ok = scenario(seed, o, base, &d);
  caseInfo("%s variants=%d", d.c_str(), variants);
  for (int v = 0; v < variants && ok; v++) {
    uint64_t ps = r.next(); int kind = r.below(4); double sk = 0.2 + 0.6 * r.unit(); int us = r.range(20, 400), slow = r.below(C.np);
    ScenOpts q = o; q.ordered = v == 0 ? true : r.chance(0.5);
    if (kind == 0) perturbStart(ps, C.rank == slow ? 0.95 : 0.1, C.rank == slow ? 0.6 : 0.02, us);       // one process much slower
    else if (kind == 1) perturbStart(ps, 0.0, 0.0, 0);                                               // arrival order only
    else perturbStart(ps, sk, 0.15, us);
    Trace t; ok = scenario(seed, q, t);
    perturbStop();
    if (ok) {
      bool full = q.ordered;
      std::vector<const Outcome*> a, b; for (auto& x : base) if (full || x.graphLevel) a.push_back(&x); for (auto& x : t) if (full || x.graphLevel) b.push_back(&x);
      // after balancing with arrivals as they come, a different but valid distribution is allowed; what follows from it is not compared
      bool free = false;
      for (size_t i = 0; i < a.size() && !free; i++) {
        if (i >= b.size() || a[i]->name != b[i]->name) { viol("with other timing the program takes another course at '%s'", a[i]->name.c_str()); break; }
        if (!full && a[i]->name == "removal") { continue; }
        if (a[i]->h != b[i]->h) { viol("%s gives another result with other timing%s", a[i]->name.c_str(), q.ordered ? "" : " (arrival order left open)"); break; }
        note("outcomes_compared");
      }
      note(full ? "ordered_variants" : "unordered_variants");
    }
  }
  PMPI_Barrier(MPI_COMM_WORLD);
  if (!C.rank) rmdir(o.dir.c_str());
}
MODULE("C04", oneCase, NULL, NULL);
