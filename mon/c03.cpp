// C03: switching communicators isolates groups and restores correctly.
#include "model.h"
#include <engpar_support.h>
#include <unistd.h>
using namespace agi;

static const char* who(MPI_Comm c) { return c == MPI_COMM_WORLD ? "world" : c == MPI_COMM_SELF ? "self" : "group"; }
static bool identity(MPI_Comm c) {
  int n, me; MPI_Comm_size(c, &n); MPI_Comm_rank(c, &me); bool ok = true; int a = -1, b = -1;
  PCU_Comm_Rank(&a); PCU_Comm_Size(&b);
  if (PCU_Comm_Self() != me || PCU_Proc_Self() != me || a != me) { viol("after switching to a %s of %d: rank %d/%d/%d instead of %d", who(c), n, PCU_Comm_Self(), PCU_Proc_Self(), a, me); ok = false; }
  if (PCU_Comm_Peers() != n || PCU_Proc_Peers() != n || b != n) { viol("after switching to a %s of %d: size %d/%d/%d", who(c), n, PCU_Comm_Peers(), PCU_Proc_Peers(), b); ok = false; }
  int cmp = -1; PMPI_Comm_compare(PCU_Get_Comm(), c, &cmp);
  if (cmp != MPI_IDENT) { viol("the current communicator is not the one switched to"); ok = false; }
  note("switches_judged");
  return ok;
}
// one phase within the group; contents depend on the group, so foreign traffic is recognised
static bool phase(Rng& g, Rng& lr, uint64_t gkey, MPI_Comm c, bool stray) {
  int n = PCU_Comm_Peers(), me = PCU_Comm_Self(); double dens = g.unit(); uint64_t key = mix(gkey, g.next()); bool ordered = g.chance(0.6);
  std::vector<std::vector<uint64_t> > in(n), out(n);
  for (int s = 0; s < n; s++) for (int d = 0; d < n; d++) {
    bool p = g.chance(dens); int len = g.chance(0.05) ? g.range(1000, 20000) : g.range(1, 30);
    if (!p) continue;
    Rng q(mix(key, s * 64 + d)); std::vector<uint64_t> v; for (int i = 0; i < len; i++) v.push_back(q.next());
    if (s == me) out[d] = v;
    if (d == me) in[s] = v;
  }
  // somebody's own messages over the same communicator do not disturb
  MPI_Request rq; int tok = (int)(key & 0xffffff) + me;
  if (stray) MPI_Isend(&tok, 1, MPI_INT, (me + 1) % n, 0, c, &rq);
  PCU_Comm_Order(ordered);
  PCU_Comm_Begin();
  for (int d = 0; d < n; d++) for (uint64_t x : out[d]) PCU_COMM_PACK(d, x);
  if (stray && (key >> 40) % 3 == 0) PMPI_Barrier(c);
  if (lr.chance(0.2)) usleep(lr.below(1500));
  PCU_Comm_Send();
  std::vector<int> got(n, 0); bool ok = true;
  while (PCU_Comm_Listen()) {
    int f = PCU_Comm_Sender();
    if (f < 0 || f >= n) { viol("a message from %d in a group of %d", f, n); return false; }
    if (got[f]++ || in[f].empty()) { viol("an unexpected message from %d in a group of %d", f, n); return false; }
    size_t z; PCU_Comm_Received(&z);
    if (z != in[f].size() * 8) { viol("%zu bytes from %d in a group of %d, %zu expected", z, f, n, in[f].size() * 8); return false; }
    for (size_t i = 0; i < in[f].size(); i++) { uint64_t x; PCU_COMM_UNPACK(x); if (x != in[f][i]) { viol("contents from %d in a group of %d are not what the group sent", f, n); ok = false; break; } }
    if (!ok) return false;
    note("messages");
  }
  for (int s = 0; s < n; s++) if (!in[s].empty() && !got[s]) { viol("no message from %d in a group of %d", s, n); ok = false; }
  if (stray) {
    int r = -1, from = (me + n - 1) % n; MPI_Status st;
    PMPI_Recv(&r, 1, MPI_INT, from, 0, c, &st); MPI_Wait(&rq, MPI_STATUS_IGNORE);
    if (r != (int)(key & 0xffffff) + from) { viol("a message of the user's over the same communicator was disturbed"); ok = false; }
    note("user_messages");
  }
  PCU_Comm_Order(true);
  note("phases");
  return ok;
}
static bool collectives(Rng& g, uint64_t gkey) {
  int n = PCU_Comm_Peers(), me = PCU_Comm_Self(), len = g.range(1, 40); uint64_t key = mix(gkey, g.next()); bool ok = true;
  auto val = [&](int p, int i) { return (long)(mix(key, p * 1000 + i) % 1000003); };
  std::vector<long> a(len), e(len, 0), x(len), xe(len, 0);
  for (int i = 0; i < len; i++) { a[i] = x[i] = val(me, i); for (int p = 0; p < n; p++) { e[i] += val(p, i); if (p < me) xe[i] += val(p, i); } }
  PCU_Add_Longs(a.data(), len); PCU_Exscan_Longs(x.data(), len);
  if (a != e) { viol("a sum in a group of %d covers other processes", n); ok = false; }
  if (x != xe) { viol("a prefix sum in a group of %d covers other processes", n); ok = false; }
  int mx = PCU_Max_Int((int)val(me, 0)), ex = 0; for (int p = 0; p < n; p++) ex = std::max(ex, (int)val(p, 0));
  if (mx != ex) { viol("a maximum in a group of %d covers other processes", n); ok = false; }
  PCU_Barrier();
  note("collectives", 4);
  return ok;
}
static bool graph(Rng& g, MPI_Comm c) {
  int n = PCU_Comm_Peers(), me = PCU_Comm_Self();
  GenOpts o; o.maxV = g.range(2, 30); o.maxT = 3;
  Model m = genModel(g, o); Owners own = genOwners(g, m, n); Build b = genBuild(g); Owners to = genOwners(g, m, n); int how = g.below(4);
  // the model's helpers speak of this group's ranks
  int sr = C.rank, sn = C.np; C.rank = me; C.np = n;
  Ngraph* gr = build(m, own, b);
  CheckOpts co("in the group"); co.comm = c;
  bool ok = checkDistributed(gr, m, own, co);
  if (ok) { migrateTo(gr, m, to, how); CheckOpts c2("migrated in the group"); c2.comm = c; std::set<int> gh = expectedGhosts(m, to, me); c2.ghosts = &gh; ok = checkDistributed(gr, m, to, c2); }
  destroyGraph(gr);
  C.rank = sr; C.np = sn;
  note("graphs");
  return ok;
}
static void sw(MPI_Comm c, Rng& lr) { if (lr.chance(0.5)) PCU_Switch_Comm(c); else EnGPar_Switch_Comm(c); }
static void fail() { PMPI_Abort(MPI_COMM_WORLD, 9); }

static void work(MPI_Comm c, uint64_t gkey, Rng& lr, int maxRounds) {
  Rng g(gkey); int rounds = g.range(1, maxRounds);
  for (int i = 0; i < rounds; i++) {
    int w = g.below(12); bool stray = g.chance(0.3), ok;
    if (lr.chance(0.1)) usleep(lr.below(3000));
    if (w < 6) ok = phase(g, lr, gkey, c, stray); else if (w < 11) ok = collectives(g, gkey); else ok = graph(g, c);
    if (!ok) fail();
  }
}
static MPI_Comm makeGroup(MPI_Comm from, uint64_t key, int& color) {
  int n, me; MPI_Comm_size(from, &n); MPI_Comm_rank(from, &me);
  Rng q(key); int kind = q.below(5); MPI_Comm c; int k;
  std::vector<int> col(n), rk(n);
  int ng = q.range(1, n); for (int i = 0; i < n; i++) { col[i] = kind == 0 ? q.below(ng) : kind == 1 ? i % ng : kind == 2 ? i * ng / n : kind == 3 ? i : 0; rk[i] = q.below(50); }
  k = q.chance(0.5) ? rk[me] : me; color = col[me];
  MPI_Comm_split(from, col[me], k, &c);
  return c;
}
static void nest(MPI_Comm c, uint64_t key, int depth, Rng& lr) {
  work(c, mix(key, 1), lr, depth ? 4 : 7);
  Rng q(mix(key, 2)); int times = q.below(3);
  if (depth >= 3) return;
  for (int i = 0; i < times; i++) {
    int color; MPI_Comm s = makeGroup(c, mix(key, 100 + i), color);
    sw(s, lr);
    if (!identity(s)) fail();
    nest(s, mix(mix(key, 200 + i), color), depth + 1, lr);
    sw(c, lr);
    if (!identity(c)) fail();
    MPI_Comm_free(&s);
    work(c, mix(key, 300 + i), lr, 3);
  }
}
static void oneCase(Rng& r) {
  bool perturb = r.chance(0.7), hop = r.chance(0.5); uint64_t key = r.next(), ps = r.next(), ls = r.next(); double sk = r.unit() * 0.7; int us = r.range(1, 200), nhop = r.range(3, 10);
  caseInfo("%s perturb=%d", hop ? "hopping" : "nesting", perturb);
  if (C.np == 1 && !hop) trivialCase();
  if (perturb) perturbStart(ps, sk, 0.2, us);
  Rng lr(mix(ls, C.rank));
  if (!identity(MPI_COMM_WORLD)) fail();
  if (!hop) nest(MPI_COMM_WORLD, key, 0, lr);
  else {            // directly from one grouping of all processes to another, never back in between
    int ng = 4; std::vector<MPI_Comm> gs; std::vector<int> colors; Rng q(key);
    for (int i = 0; i < ng; i++) { int col; gs.push_back(makeGroup(MPI_COMM_WORLD, q.next(), col)); colors.push_back(col); }
    MPI_Comm d; MPI_Comm_dup(MPI_COMM_WORLD, &d);
    gs.push_back(MPI_COMM_WORLD); colors.push_back(0); gs.push_back(MPI_COMM_SELF); colors.push_back(C.rank); gs.push_back(d); colors.push_back(0);
    for (int i = 0; i < nhop; i++) {
      int w = q.below((int)gs.size());
      sw(gs[w], lr); if (!identity(gs[w])) fail();
      work(gs[w], mix(mix(key, i), colors[w] + 1000 * w), lr, 4);
      note("hops");
    }
    sw(MPI_COMM_WORLD, lr); if (!identity(MPI_COMM_WORLD)) fail();
    work(MPI_COMM_WORLD, mix(key, 999), lr, 4);
    for (int i = 0; i < ng; i++) MPI_Comm_free(&gs[i]);
    MPI_Comm_free(&d);
  }
  perturbStop();
}
MODULE("C03", oneCase, NULL, NULL);
