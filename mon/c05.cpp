// C05: the portable binary file layer returns what was written
#include "common.h"
#include "faults.h"
#include <PCU.h>
#include <pcu_io.h>
extern "C" {
#include <noto_malloc.h>
}
#include <sys/stat.h>
#include <dirent.h>
#include <bzlib.h>

enum { U32, F64, STR, RAW };
struct Item { int k; std::vector<unsigned> u; std::vector<double> d; std::string s; };
static void be(std::string& o, uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) o += (char)(v >> (8 * i)); }
static std::string encode(const std::vector<Item>& v) {
  std::string o;
  for (const Item& i : v) switch (i.k) {
    case U32: for (unsigned x : i.u) be(o, x, 4); break;
    case F64: for (double x : i.d) { uint64_t b; memcpy(&b, &x, 8); be(o, b, 8); } break;
    case STR: o += i.s; o += '\0'; break;
    case RAW: o += i.s; break;
  }
  return o;
}
static double bits(Rng& r) {
  uint64_t b;
  switch (r.below(10)) {
    case 0: b = 0; break; case 1: b = 1ull << 63; break; case 2: b = 0x7ff0000000000000ull | (uint64_t)r.below(2) << 63; break;
    case 3: b = 0x7ff8000000000000ull | r.next() >> 13; break; case 4: b = 0x7ff0000000000001ull + (r.next() >> 14); break;   // quiet and signalling NaN with payload
    case 5: b = r.next() >> 12; break; case 6: b = 0x0102030405060708ull; break; case 7: b = 0xffull << (8 * r.below(8)); break;
    case 8: { double d = r.range(-1000, 1000) / 8.0; memcpy(&b, &d, 8); break; } default: b = r.next();
  }
  double d; memcpy(&d, &b, 8); return d;
}
static int length(Rng& r, bool big) {
  switch (r.below(8)) { case 0: return 0; case 1: case 2: return 1; case 3: return 2 + r.below(6); case 4: return r.below(100); case 5: return r.below(600); case 6: return 500 + r.below(600); default: return big ? r.below(200000) : r.below(5000); }
}
static std::vector<Item> items(Rng& r, std::string& desc) {
  int n = r.chance(0.05) ? 0 : r.range(1, r.chance(0.2) ? 60 : 12), flat = r.below(4); bool big = r.chance(0.06); std::vector<Item> v;
  for (int i = 0; i < n; i++) {
    Item t; t.k = flat == 0 ? r.below(2) : r.below(4); Rng q(r.next()); int len = length(r, big);
    if (t.k == U32) for (int j = 0; j < len; j++) t.u.push_back(q.chance(0.3) ? (unsigned[]){0, 1, 0xffffffffu, 0x80000000u, 0x01020304u, 255, 0xff00, 0x10000}[q.below(8)] : (unsigned)q.next());
    else if (t.k == F64) for (int j = 0; j < len; j++) t.d.push_back(bits(q));
    else for (int j = 0; j < len; j++) { char c = (char)q.next(); if (t.k == STR && !c) c = 'z'; t.s += c; }
    v.push_back(t);
  }
  desc = strf("%d items%s", n, big ? " big" : "");
  return v;
}
static void put(const std::vector<Item>& v, pcu_file* f, Rng& r) {
  for (const Item& i : v) {
    Item c = i; bool split = r.chance(0.3); size_t n = i.k == U32 ? i.u.size() : i.k == F64 ? i.d.size() : i.s.size();
    size_t cut = split ? r.below((int)n + 1) : n;
    if (i.k == U32) { pcu_write_unsigneds(f, c.u.data(), cut); if (split) pcu_write_unsigneds(f, c.u.data() + cut, n - cut); if (n && memcmp(c.u.data(), i.u.data(), 4 * n)) viol("writing unsigned integers changes the caller's array"); note("unsigneds", n); }
    else if (i.k == F64) { pcu_write_doubles(f, c.d.data(), cut); if (split) pcu_write_doubles(f, c.d.data() + cut, n - cut); if (n && memcmp(c.d.data(), i.d.data(), 8 * n)) viol("writing doubles changes the caller's array"); note("doubles", n); }
    else if (i.k == STR) { pcu_write_string(f, c.s.c_str()); note("strings"); }
    else { pcu_write(f, c.s.data(), cut); if (split) pcu_write(f, c.s.data() + cut, n - cut); note("raw_bytes", n); }
  }
}
// false when something differs
static bool get(const std::vector<Item>& v, pcu_file* f, Rng& r, bool report) {
  bool ok = true; int at = 0;
  auto bad = [&](const char* what, size_t n) { ok = false; if (report) viol("item %d (%s of length %zu) is not read back as written", at, what, n); };
  for (const Item& i : v) {
    size_t n = i.k == U32 ? i.u.size() : i.k == F64 ? i.d.size() : i.s.size(), cut = r.chance(0.3) ? r.below((int)n + 1) : n;
    if (i.k == U32) { std::vector<unsigned> b(n + 2, 0xABABABABu); pcu_read_unsigneds(f, n ? b.data() + 1 : NULL, cut); if (cut < n) pcu_read_unsigneds(f, b.data() + 1 + cut, n - cut); if (b[0] != 0xABABABABu || b[n + 1] != 0xABABABABu || (n && memcmp(&b[1], i.u.data(), 4 * n))) bad("unsigned integers", n); }
    else if (i.k == F64) { std::vector<double> b(n + 2, 77.0); pcu_read_doubles(f, n ? b.data() + 1 : NULL, cut); if (cut < n) pcu_read_doubles(f, b.data() + 1 + cut, n - cut); if (b[0] != 77.0 || b[n + 1] != 77.0 || (n && memcmp(&b[1], i.d.data(), 8 * n))) bad("doubles", n); }
    else if (i.k == STR) { char* s = NULL; pcu_read_string(f, &s); if (!s || i.s != s) bad("string", n); noto_free(s); }
    else { std::vector<char> b(n + 2, 'Q'); pcu_read(f, &b[1], cut); if (cut < n) pcu_read(f, &b[1] + cut, n - cut); if (b[0] != 'Q' || b[n + 1] != 'Q' || (n && memcmp(&b[1], i.s.data(), n))) bad("bytes", n); }
    at++;
    note("items_read");
  }
  return ok;
}
static std::string slurp(const std::string& p) { std::string s; FILE* f = fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f))) s.append(b, n); fclose(f); return s; }
static bool unpack(const std::string& p, std::string& out) {
  BZFILE* b = BZ2_bzopen(p.c_str(), "rb"); if (!b) return false; out.clear(); char t[65536]; int n;
  while ((n = BZ2_bzread(b, t, sizeof t)) > 0) out.append(t, n);
  BZ2_bzclose(b); return n == 0;
}
static int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }

static void trip(Rng& r) {
  std::string top = scratch() + strf("/c%d", C.caseIdx); if (!C.rank) mkdir(top.c_str(), 0700); MPI_Barrier(MPI_COMM_WORLD);
  std::string path = top + strf("/f%d", C.rank), desc; bool comp = r.chance(0.5), again = r.chance(0.3), two = r.chance(0.3), wrong = r.chance(0.2);
  Rng mine(mix(C.caseSeed, 1000 + C.rank));
  std::vector<Item> v = items(mine, desc), v2 = items(mine, desc);
  caseInfo("%s%s%s %zu bytes on rank 0", comp ? "compressed " : "", again ? "rewritten " : "", two ? "two files " : "", encode(v).size());
  int fd0 = fds();
  if (again) { pcu_file* f = pcu_fopen(path.c_str(), true, r.chance(0.5)); std::string d; put(items(mine, d), f, mine); pcu_fclose(f); }
  pcu_file* f = pcu_fopen(path.c_str(), true, comp);
  pcu_file* g = two ? pcu_fopen((path + ".2").c_str(), true, !comp) : NULL;
  put(v, f, mine); if (g) put(v2, g, mine);
  pcu_fclose(f); if (g) pcu_fclose(g);
  std::string want = encode(v), have = comp ? "" : slurp(path);
  if (comp) { if (!unpack(path, have)) viol("the compressed file is not a bzip2 file"); }
  if (have != want) { size_t k = 0; while (k < have.size() && k < want.size() && have[k] == want[k]) k++; viol("the %s has %zu bytes instead of %zu, the first difference at %zu", comp ? "decompressed file" : "file", have.size(), want.size(), k); }
  note("files"); note("bytes_on_disk", have.size());
  for (int turn = 0; turn < 2; turn++) {
    f = pcu_fopen(path.c_str(), false, comp); g = two ? pcu_fopen((path + ".2").c_str(), false, !comp) : NULL;
    get(v, f, mine, true); if (g) get(v2, g, mine, true);
    pcu_fclose(f); if (g) pcu_fclose(g);
    note("files_read");
  }
  if (wrong) {     // only the beginning of the file
    f = pcu_fopen(path.c_str(), false, comp); std::vector<Item> part(v.begin(), v.begin() + v.size() / 2); get(part, f, mine, true); pcu_fclose(f);
  }
  if (fds() != fd0) viol("%d files stay open", fds() - fd0);
  // names of parallel files
  { const char* ext[] = {"txt", "x", "", "long.extension.of.a.file"}; int e = r.below(4); std::string pre = top + (r.chance(0.5) ? "/p" : "/" + std::string(r.range(1, 180), 'n'));
    FILE* h = pcu_open_parallel(pre.c_str(), ext[e]); std::string n = pre + strf("%d.", C.rank) + ext[e];
    if (!h) viol("pcu_open_parallel returns nothing"); else { fprintf(h, "rank %d", C.rank); fclose(h); if (slurp(n) != strf("rank %d", C.rank)) viol("the parallel file of rank %d is not at %s", C.rank, n.c_str()); }
    note("parallel_files"); }
  // byte order
  { std::vector<unsigned> a; std::vector<double> d; int n = r.below(50); for (int i = 0; i < n; i++) { a.push_back((unsigned)mine.next()); d.push_back(bits(mine)); }
    std::vector<unsigned> a2 = a; std::vector<double> d2 = d; pcu_swap_unsigneds(a2.data(), n); pcu_swap_doubles(d2.data(), n);
    for (int i = 0; i < n; i++) { uint64_t x, y; memcpy(&x, &d[i], 8); memcpy(&y, &d2[i], 8); if (__builtin_bswap32(a[i]) != a2[i] || __builtin_bswap64(x) != y) { viol("swapping does not reverse the bytes of entry %d", i); break; } }
    pcu_swap_unsigneds(a2.data(), n); pcu_swap_doubles(d2.data(), n);
    if (n && (memcmp(a.data(), a2.data(), 4 * n) || memcmp(d.data(), d2.data(), 8 * n))) viol("swapping twice is not the identity"); note("swaps", n); }
  unlink(path.c_str()); unlink((path + ".2").c_str());
  MPI_Barrier(MPI_COMM_WORLD);
  if (!C.rank) { DIR* D = opendir(top.c_str()); while (dirent* e = readdir(D)) unlink((top + "/" + e->d_name).c_str()); closedir(D); rmdir(top.c_str()); }
}

static void fault(Rng& r) {
  std::string top = scratch() + strf("/c%d", C.caseIdx); if (!C.rank) mkdir(top.c_str(), 0700); MPI_Barrier(MPI_COMM_WORLD);
  std::string path = top + strf("/f%d", C.rank), d, what; bool comp = r.chance(0.5), load = r.chance(0.75); int who = r.below(C.np), kind = load ? (int[]){0, 1, 1, 1, 2, 3, 4, 5, 6}[r.below(9)] : r.below(5);
  if (C.np > 1) kind = load ? r.below(4) : r.below(3);
  std::vector<Item> v; do { v = items(r, d); } while (encode(v).size() < 2);
  if (kind == 3 && load) { Item x; x.k = F64; x.d.push_back(1.5); v.push_back(x); }
  uint64_t ps = r.next();
  auto wr = [&](bool c) { Rng q(ps); pcu_file* f = pcu_fopen(path.c_str(), true, c); put(v, f, q); pcu_fclose(f); };
  bool wc = comp; long cut = 0; uint64_t cr = r.next();
  if (kind == 5 && load) wc = false;             // plain file read as compressed
  if (load) wr(wc);
  if (load && (C.rank == who)) {
    Rng q(cr); struct stat st; stat(path.c_str(), &st); long n = st.st_size;
    switch (kind) {
      case 0: what = "missing file"; unlink(path.c_str()); break;
      case 1: cut = q.chance(0.3) ? std::max(0l, n - 1 - q.below(12)) : q.below((int)n); what = strf("file of %ld bytes cut to %ld", n, cut); if (truncate(path.c_str(), cut)) {} break;
      case 2: what = "a directory"; unlink(path.c_str()); mkdir(path.c_str(), 0700); break;
      case 3: what = "reading past the end"; break;
      case 4: what = "a damaged byte"; { std::string s = slurp(path); s[q.below((int)s.size())] ^= 1 << q.below(8); FILE* f = fopen(path.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); } break;
      case 5: what = "a plain file read as a compressed one"; break;
      default: what = "writing to a file opened for reading"; break;
    }
  }
  auto op = [&]() {
    Rng q(ps);
    if (load) {
      std::vector<Item> w = v; if (kind == 3 && C.rank == who) { Item x = v.back(); w.push_back(x); }
      pcu_file* f = pcu_fopen(path.c_str(), false, kind == 5 ? true : comp);
      if (kind == 6) { pcu_write(f, "abc", 3); return; }
      bool same = get(w, f, q, false); pcu_fclose(f);
      if (same && kind != 3) throw 1;                                // nothing wrong was returned
    } else wr(comp);
  };
  if (!load) {
    Rng q(cr);
    if (C.rank == who) switch (kind) {
      case 0: what = "a directory in place of the file"; mkdir(path.c_str(), 0700); break;
      case 1: what = "full device"; if (symlink("/dev/full", path.c_str())) {} break;
      case 2: what = "missing directory"; path = top + "/no/such/f"; break;
      case 3: what = "reading from a file opened for writing"; break;
      default: what = "long file on a full device"; for (int i = 0; i < 40; i++) { Item x; x.k = F64; for (int j = 0; j < 3000; j++) { double y; uint64_t b = q.next(); memcpy(&y, &b, 8); x.d.push_back(y); } v.push_back(x); } if (symlink("/dev/full", path.c_str())) {} break;
    }
  }
  MPI_Barrier(MPI_COMM_WORLD);
  caseInfo("%s%s", comp ? "compressed " : "", load ? "read" : "write"); if (C.np == 1) caseInfo("%s", what.c_str());
  if (C.np == 1) {
    std::string bad = "";
    bad = mustFail([&]() { if (!load && kind == 3) { pcu_file* f = pcu_fopen(path.c_str(), true, comp); char c; pcu_read(f, &c, 1); } else op(); });
    if (load && kind == 4 && bad.find("returns") != std::string::npos) bad = "";   // no checksum promised: any answer without a crash
    if (!bad.empty()) viol("%s %s: %s", load ? "reading" : "writing", what.c_str(), bad.c_str());
    note(load ? "faults_read" : "faults_write");
    unlink(path.c_str()); rmdir(path.c_str()); rmdir(top.c_str());
    return;
  }
  bool same = false;
  try { op(); } catch (int) { same = true; }
  if (same && C.rank == who && load && kind == 1) { fprintf(stderr, "all data was there\n"); MPI_Abort(MPI_COMM_WORLD, 8); }
  MPI_Barrier(MPI_COMM_WORLD);
  viol("%s with a fault on one process (%s) returns", load ? "reading" : "writing", what.c_str());
}
static void any(Rng& r) { if (C.mode == "fault") fault(r); else trip(r); }
MODULE("C05", any, NULL, NULL);
