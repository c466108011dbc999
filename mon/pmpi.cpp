// Interposed MPI calls (PMPI profiling interface): seeded delays, hidden
// messages and permuted arrival orders, all of which a real network may show;
// plus counters of what went over the wire and a hash of the arrival order.
#include "common.h"
#include <unistd.h>

Perturb PB = {false, 0, 0, 0, true, Rng(1), 0, 0, 0, 0, 0, 0};

void perturbStart(uint64_t seed, double pSkip, double pDelay, int maxUs, bool pick) {
  PB.on = true; PB.pSkip = pSkip; PB.pDelay = pDelay; PB.maxUs = maxUs; PB.pick = pick;
  PB.rng = Rng(mix(seed, 1000 + C.rank)); PB.orderHash = 0;
}
void perturbStop() {
  if (!PB.on) return;
  PB.on = false;
  if (PB.orderHash) C.interleavings.insert(PB.orderHash);
}
static void maybeDelay() {
  if (PB.on && PB.maxUs > 0 && PB.rng.chance(PB.pDelay)) usleep(1 + PB.rng.below(PB.maxUs));
}

extern "C" {
int MPI_Issend(const void* buf, int count, MPI_Datatype dt, int dest, int tag, MPI_Comm comm, MPI_Request* req) {
  maybeDelay();
  PB.sends++; PB.open++; PB.bytesSent += count;
  return PMPI_Issend(buf, count, dt, dest, tag, comm, req);
}
int MPI_Recv(void* buf, int count, MPI_Datatype dt, int source, int tag, MPI_Comm comm, MPI_Status* st) {
  PB.recvs++; PB.bytesRecv += count;
  return PMPI_Recv(buf, count, dt, source, tag, comm, st);
}
int MPI_Test(MPI_Request* req, int* flag, MPI_Status* st) {
  if (PB.on && PB.rng.chance(PB.pSkip * 0.5)) { *flag = 0; return MPI_SUCCESS; }
  bool live = *req != MPI_REQUEST_NULL; int rc = PMPI_Test(req, flag, st);
  if (live && *flag) PB.open--;
  return rc;
}
int MPI_Iprobe(int source, int tag, MPI_Comm comm, int* flag, MPI_Status* st) {
  if (!PB.on) return PMPI_Iprobe(source, tag, comm, flag, st);
  maybeDelay();
  if (PB.rng.chance(PB.pSkip)) { *flag = 0; int f; MPI_Status s2; PMPI_Iprobe(source, tag, comm, &f, &s2); return MPI_SUCCESS; }
  if (source != MPI_ANY_SOURCE || !PB.pick) return PMPI_Iprobe(source, tag, comm, flag, st);
  int n; PMPI_Comm_size(comm, &n);
  int off = PB.rng.below(n), step = 1;
  if (n > 2) { step = 1 + PB.rng.below(n - 1); while (std::__gcd(step, n) != 1) step = 1 + PB.rng.below(n - 1); }
  *flag = 0;
  for (int i = 0; i < n; i++) {
    int s = (int)((off + (long)i * step) % n);
    if (PB.rng.chance(PB.pSkip)) continue;
    int rc = PMPI_Iprobe(s, tag, comm, flag, st);
    if (rc != MPI_SUCCESS) return rc;
    if (*flag) { PB.orderHash = mix(PB.orderHash + 1, s); return rc; }
  }
  return MPI_SUCCESS;
}
}
