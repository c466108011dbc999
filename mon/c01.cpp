// C01: every message of a phase arrives exactly once, intact, from the right sender; phases do not leak.
#include "common.h"
#include <PCU.h>
#include <unistd.h>

struct Msg { bool present, write; std::vector<int> sizes; long total; };
static void fillBytes(uint64_t key, std::vector<unsigned char>& b) {
  Rng r(key); size_t i = 0;
  while (i < b.size()) { uint64_t x = r.next(); size_t n = std::min<size_t>(8, b.size() - i); memcpy(&b[i], &x, n); i += n; }
}

static void oneCase(Rng& r) {
  int np = C.np, nph = r.range(1, 9);
  bool big = r.chance(0.06), perturb = r.chance(0.75);
  double sk = r.chance(0.3) ? 0.9 : r.unit() * 0.7, dl = r.chance(0.5) ? 0.3 : 0; int us = r.range(1, 300);
  bool reinit = r.chance(0.08);
  caseInfo("phases=%d big=%d perturb=%d reinit=%d", nph, big, perturb, reinit);
  if (reinit) {
    PCU_Comm_Free();
    if (PCU_Comm_Initialized()) viol("initialised after being freed");
    PCU_Comm_Init();
    if (!PCU_Comm_Initialized()) viol("not initialised after initialisation");
    note("reinitialised");
  }
  uint64_t baseKey = r.next(); bool skews = r.chance(0.5);
  if (perturb) perturbStart(r.next(), sk, dl, us); else r.next();
  Rng lr(mix(baseKey, 77 + C.rank));
  bool okSelf = PCU_Comm_Self() == C.rank && PCU_Comm_Peers() == np;
  if (!okSelf) viol("self %d peers %d instead of %d %d", PCU_Comm_Self(), PCU_Comm_Peers(), C.rank, np);
  for (int ph = 0; ph < nph; ph++) {
    // the whole pattern is drawn alike everywhere, so every process knows what it must get
    int kind = r.below(9); bool ordered = r.chance(0.5), writes = r.chance(0.25); int hub = r.below(np), gap = r.range(1, std::max(1, np - 1));
    int sizeKind = r.below(5);
    std::vector<Msg> M(np * np); 
    for (int s = 0; s < np; s++) for (int d = 0; d < np; d++) {
      Msg& m = M[s * np + d]; double u = r.unit(); int nch = r.range(1, 6); bool bigOne = big && r.chance(0.15);
      switch (kind) {
        case 0: m.present = true; break;
        case 1: m.present = u < 0.3; break;
        case 2: m.present = d == hub; break;
        case 3: m.present = s == hub; break;
        case 4: m.present = d == (s + gap) % np; break;
        case 5: m.present = s == d; break;
        case 6: m.present = false; break;
        case 7: m.present = s != d && u < 0.7; break;
        default: m.present = s < d;
      }
      m.total = 0; m.write = writes;
      for (int k = 0; k < nch; k++) {
        int z = r.below(100), sz;
        if (z < 12) sz = 0; else if (sizeKind == 0) sz = r.range(1, 8); else if (sizeKind == 1) sz = r.range(1, 64);
        else if (sizeKind == 2) sz = 8; else if (sizeKind == 3) sz = r.range(1, 5000); else sz = r.range(20, 30);
        if (bigOne && k == 0) sz = r.range(100000, 1500000);
        if (sizeKind == 2 && r.chance(0.4)) sz = 0;
        m.sizes.push_back(sz); m.total += sz;
      }
      if (!m.present) { m.sizes.clear(); m.total = 0; }
    }
    auto key = [&](int s, int d, int k) { return mix(mix(baseKey, ph * 1000 + s * 30 + d), k); };
    if (skews && lr.chance(0.3)) usleep(lr.below(2000));
    PCU_Comm_Order(ordered);
    if (lr.chance(0.5)) PCU_Comm_Begin(); else PCU_Comm_Start(lr.chance(0.5) ? PCU_GLOBAL_METHOD : PCU_LOCAL_METHOD);
    // pack in an order of our own, chunks of different receivers interleaved
    std::vector<int> at(np, 0), left; std::vector<size_t> packed(np, 0);
    for (int d = 0; d < np; d++) for (size_t k = 0; k < M[C.rank * np + d].sizes.size(); k++) left.push_back(d);
    lr.shuffle(left);
    for (int d : left) {
      Msg& m = M[C.rank * np + d]; int k = at[d]++;
      std::vector<unsigned char> b(m.sizes[k]); fillBytes(key(C.rank, d, k), b);
      unsigned char* p = (unsigned char*)malloc(b.size() ? b.size() : 1);
      if (b.size()) memcpy(p, b.data(), b.size());
      if (m.write) { PCU_Comm_Write(d, p, b.size()); packed[d] += sizeof(size_t) + b.size(); }
      else { PCU_Comm_Pack(d, p, b.size()); packed[d] += b.size(); }
      memset(p, 0xEE, b.size() ? b.size() : 1); free(p);          // the library must have taken a copy
      if (lr.chance(0.2)) { size_t z = 0; PCU_Comm_Packed(d, &z); if (z != packed[d]) viol("phase %d: %zu bytes packed for %d, reported %zu", ph, packed[d], d, z); note("packed_queries"); }
    }
    note("packed", left.size());
    if (skews && lr.chance(0.3)) usleep(lr.below(2000));
    PCU_Comm_Send();
    std::vector<int> got(np, 0); int lastFrom = -1; bool more = true;
    auto from = [&]() {
      int f = PCU_Comm_Sender(), f2 = -1; PCU_Comm_From(&f2);
      if (f != f2) viol("phase %d: sender %d and from %d differ", ph, f, f2);
      return f;
    };
    auto expectBytes = [&](int f, size_t& len) {
      std::vector<unsigned char> all; Msg& m = M[f * np + C.rank];
      for (size_t k = 0; k < m.sizes.size(); k++) {
        std::vector<unsigned char> b(m.sizes[k]); fillBytes(key(f, C.rank, (int)k), b);
        if (m.write) { size_t z = b.size(); const unsigned char* q = (const unsigned char*)&z; all.insert(all.end(), q, q + sizeof z); }
        all.insert(all.end(), b.begin(), b.end());
      }
      len = all.size(); return all;
    };
    auto arrival = [&](int f) {
      if (f < 0 || f >= np) { viol("phase %d: sender %d does not exist", ph, f); return false; }
      if (!M[f * np + C.rank].present) { viol("phase %d: a message from %d, which packed nothing for this process", ph, f); return false; }
      if (got[f]++) { viol("phase %d: a second message from %d", ph, f); return false; }
      if (ordered && f <= lastFrom) viol("phase %d: ordered, but %d delivered after %d", ph, f, lastFrom);
      lastFrom = f;
      note("messages");
      return true;
    };
    if (writes) {
      std::vector<int> nx(np, 0); int fr = -1, cur = -1; void* data; size_t z;
      while (PCU_Comm_Read(&fr, &data, &z)) {
        if (fr < 0 || fr >= np) { viol("phase %d: read from %d", ph, fr); break; }
        if (fr != cur) { if (!arrival(fr)) break; cur = fr; }
        Msg& m = M[fr * np + C.rank]; int k = nx[fr]++;
        if (k >= (int)m.sizes.size()) { viol("phase %d: more messages from %d than it wrote (%zu)", ph, fr, m.sizes.size()); break; }
        std::vector<unsigned char> b(m.sizes[k]); fillBytes(key(fr, C.rank, k), b);
        if (z != b.size()) { viol("phase %d: message %d from %d has %zu bytes, not %zu", ph, k, fr, z, b.size()); break; }
        if (z && memcmp(data, b.data(), z)) viol("phase %d: message %d from %d has other contents", ph, k, fr);
        note("writes_read"); note("bytes", z);
        if (skews && lr.chance(0.1)) usleep(lr.below(500));
      }
      for (int f = 0; f < np; f++) if (M[f * np + C.rank].present && nx[f] != (int)M[f * np + C.rank].sizes.size() && got[f]) viol("phase %d: %d of %zu messages from %d read", ph, nx[f], M[f * np + C.rank].sizes.size(), f);
      more = false;
    } else {
      // three ways of receiving: listen and unpack all, object by object, or in pieces cut elsewhere
      int how = lr.below(3);
      while (more) {
        if (how == 1) {
          if (!PCU_Comm_Receive()) { more = false; break; }
          int f = from(); if (!arrival(f)) break;
          Msg& m = M[f * np + C.rank];
          size_t rec = 0; PCU_Comm_Received(&rec);
          if ((long)rec != m.total) { viol("phase %d: %zu bytes received from %d, %ld packed", ph, rec, f, m.total); break; }
          long done = 0;
          for (size_t k = 0; k < m.sizes.size(); k++) {
            bool un = PCU_Comm_Unpacked();
            if (un != (done == m.total)) viol("phase %d: unpacked=%d after %ld of %ld bytes", ph, un, done, m.total);
            if (done < m.total && k) { if (!PCU_Comm_Receive()) { viol("phase %d: receive ends with %ld bytes of %d left", ph, m.total - done, f); break; } if (from() != f) { viol("phase %d: receive moved on before the message was unpacked", ph); break; } }
            std::vector<unsigned char> b(m.sizes[k]), e(m.sizes[k]); fillBytes(key(f, C.rank, (int)k), e);
            PCU_Comm_Unpack(b.data(), b.size()); done += b.size();
            if (b != e) viol("phase %d: object %zu from %d has other contents", ph, k, f);
            note("objects");
          }
          note("bytes", done);
        } else {
          if (!PCU_Comm_Listen()) { more = false; break; }
          int f = from(); if (!arrival(f)) break;
          size_t len; std::vector<unsigned char> all = expectBytes(f, len); size_t rec = 0; PCU_Comm_Received(&rec);
          if (rec != len) { viol("phase %d: %zu bytes received from %d, %zu packed", ph, rec, f, len); break; }
          size_t pos = 0;
          while (pos < len) {
            if (PCU_Comm_Unpacked()) { viol("phase %d: reported unpacked at %zu of %zu", ph, pos, len); break; }
            size_t n = how == 0 ? len - pos : std::min<size_t>(len - pos, 1 + lr.below(big ? 300000 : 40));
            if (lr.chance(0.4)) {
              void* p = PCU_Comm_Extract(n);
              if (memcmp(p, &all[pos], n)) viol("phase %d: bytes %zu..%zu from %d differ", ph, pos, pos + n, f);
              note("extracts");
            } else {
              unsigned char* b = (unsigned char*)malloc(n);
              PCU_Comm_Unpack(b, n);
              if (memcmp(b, &all[pos], n)) viol("phase %d: bytes %zu..%zu from %d differ", ph, pos, pos + n, f);
              free(b);
            }
            pos += n;
            PCU_Comm_Received(&rec);
            if (rec != len) viol("phase %d: the size received changes while unpacking", ph);
          }
          if (!PCU_Comm_Unpacked()) viol("phase %d: not reported unpacked after %zu bytes", ph, len);
          note("bytes", len);
        }
        if (skews && lr.chance(0.2)) usleep(lr.below(1500));
      }
      if (how == 1) for (int f = 0; f < np; f++) if (M[f * np + C.rank].present && !M[f * np + C.rank].total) got[f] = 1;   // Receive passes over empty messages
    }
    if (!more) {
      for (int f = 0; f < np; f++) if (M[f * np + C.rank].present && !got[f]) viol("phase %d ended without the message from %d (%ld bytes)", ph, f, M[f * np + C.rank].total);
    }
    note("phases"); if (ordered) note("ordered_phases");
    if (C.violsThisCase) PMPI_Abort(MPI_COMM_WORLD, 9);       // no point in going on; phases are not synchronised here
  }
  perturbStop();
  PCU_Comm_Order(true);
}
MODULE("C01", oneCase, NULL, NULL);
