// C07: the library starts and stops any number of times, takes down only what it set up, and says exactly what it was asked to say.
#include "work.h"
#include <engpar_support.h>
#include <engpar_version.h>
#include <cengpar.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
using namespace agi;
static bool bad() { return C.violsThisCase > 0; }
static std::string file(const std::string& p) { std::string s; FILE* f = fopen(p.c_str(), "r"); if (!f) return "(none)"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static std::string onStderr(const std::function<void()>& f) {
  static int mem = -1; if (mem < 0) mem = memfd_create("err", 0);
  fflush(stderr); int keep = dup(2); if (ftruncate(mem, 0)) {} lseek(mem, 0, SEEK_SET); dup2(mem, 2);
  f(); fflush(stderr); dup2(keep, 2); close(keep);
  off_t n = lseek(mem, 0, SEEK_END); std::string s(n, 0); if (n && pread(mem, &s[0], n, 0) < 0) s.clear(); return s;
}
static std::string onStdout(const std::function<void()>& f) { captureStdout(); f(); return releaseStdout(); }

// what the program knows about the state it has brought about
struct Life { bool up, ours; int verbosity; bool log; std::string logged; int depth; bool error; MPI_Comm comm; };
static void identity(const Life& L) {
  int n, me, a = -1, b = -1; MPI_Comm_size(L.comm, &n); MPI_Comm_rank(L.comm, &me);
  PCU_Comm_Rank(&a); PCU_Comm_Size(&b);
  if (PCU_Comm_Self() != me || PCU_Comm_Peers() != n || a != me || b != n) viol("process %d of %d is said to be %d of %d, %d of %d", me, n, PCU_Comm_Self(), PCU_Comm_Peers(), a, b);
  if (PCU_Proc_Self() != me || PCU_Proc_Peers() != n) viol("process %d of %d is said to be process %d of %d", me, n, PCU_Proc_Self(), PCU_Proc_Peers());
}
static void phase(const Life& L, uint64_t key, bool fresh) {      // everyone to everyone; arrivals in order of their senders if that was not changed
  int n = PCU_Comm_Peers(), me = PCU_Comm_Self(), last = -1, got = 0; (void)L;
  PCU_Comm_Begin(); for (int p = 0; p < n; p++) { uint64_t x = mix(key, me * 1000 + p); PCU_Comm_Pack((p * 7 + me) % n, &x, 0); PCU_Comm_Pack(p, &x, sizeof x); }
  PCU_Comm_Send();
  while (PCU_Comm_Receive()) {
    uint64_t x = 0; PCU_Comm_Unpack(&x, sizeof x); int s = PCU_Comm_Sender(); got++;
    if (x != mix(key, s * 1000 + me)) { viol("a message from %d to %d is not the one sent", s, me); return; }
    if (fresh && s <= last) viol("after starting, messages are not received in the order of their senders (%d after %d)", s, last);
    last = s;
  }
  if (got != n) viol("%d messages received, %d were sent", got, n);
  note("messages", got);
}
static void say(Life& L, Rng& q) {
  static const char* words[] = {"one", "two\n", "a %% sign ", "\n", ""};
  int lvl = q.range(-2, 4), n = (int)q.below(100000) - 50000; const char* w = words[q.below(5)]; double d = 0.25 * q.below(100); std::string out, err, want, werr, rest = strf("%d ", n) + (strcmp(w, "a %% sign ") ? w : "a % sign ") + strf("%.2f", d), fmt = std::string("%d ") + w + "%.2f"; const char* what = "";
  bool on = L.verbosity >= lvl;
  if (EnGPar_Check_Verbosity(lvl) != on) { viol("verbosity %d is said to be %sat least %d", L.verbosity, on ? "not " : "", lvl); return; }
  int kind = q.below(5);
  err = onStderr([&] { out = onStdout([&] {
    if (kind == 0) { what = "a message with a level"; EnGPar_Status_Message(lvl, fmt.c_str(), n, d); if (on) want = "ENGPAR " + rest; }
    else if (kind == 1) { what = "a message"; EnGPar_Status_Message(fmt.c_str(), n, d); want = "ENGPAR " + rest; }
    else if (kind == 2) { what = "a warning"; EnGPar_Warning_Message(fmt.c_str(), n, d); want = "[WARNING] ENGPAR " + rest; }
    else if (kind == 3) { what = "an error"; EnGPar_Error_Message(fmt.c_str(), n, d); werr = "[ERROR] ENGPAR " + rest; L.error = true; }
    else { what = "starting a test"; EnGPar_Start_Test(); L.error = false; }
  }); });
  if (out != want || err != werr) viol("at verbosity %d %s (level %d) prints '%s' / '%s' instead of '%s' / '%s'", L.verbosity, what, lvl, out.c_str(), err.c_str(), want.c_str(), werr.c_str());
  if (EnGPar_Hit_Error() != L.error) viol("after %s an error is %sreported", what, L.error ? "not " : "");
  note("messages_judged");
}
static void logging(Life& L, Rng& q) {
  int n = q.range(1, 6);
  for (int i = 0; i < n && L.log; i++) {
    if (C.rank) break;                     // only the first process has a log
    if (L.depth && q.chance(0.4)) { EnGPar_End_Function(); L.depth--; }
    else { std::string s = strf("f%d(%d)\n", (int)q.below(1000), L.depth); EnGPar_Log_Function(&s[0]); L.logged += std::string(2 * L.depth, ' ') + s; L.depth++; }
  }
  note("log_entries", n);
}
static void stopLog(Life& L, const std::string& dir, const char* how) {     // the log has been closed
  if (EnGPar_Is_Log_Open()) viol("the log is open after %s", how);
  if (L.log && !C.rank) { std::string s = file(dir + "/log.txt"); if (s != L.logged) viol("after %s the log has '%s' instead of '%s'", how, s.substr(0, 200).c_str(), L.logged.substr(0, 200).c_str()); unlink((dir + "/log.txt").c_str()); }
  L.log = false; L.depth = 0; L.logged.clear();
}
static void start(Life& L, Rng& r, std::string& hist) {         // EnGPar_Initialize, through C++ or C
  bool c = r.chance(0.3); int v = r.range(-2, 3); if (c) v = 0; bool was = L.up;
  std::string out = onStdout([&] { if (c) cengpar_initialize(); else EnGPar_Initialize(v); });
  L.up = true; if (!was) L.ours = true; L.verbosity = v; hist += c ? " cinit" : strf(" init(%d)", v);
  if (!PCU_Comm_Initialized()) { viol("messages cannot be sent after starting"); return; }
  std::string want = v >= 0 && PCU_Comm_Self() == 0 ? strf("ENGPAR Git hash %s\n", engpar_version()) : "";
  if (out != want) viol("starting with verbosity %d prints '%s' instead of '%s'", v, out.c_str(), want.c_str());
  note("starts");
}
static void stop(Life& L, Rng& r, std::string& hist, const std::string& dir) {
  bool c = r.chance(0.3); hist += c ? " cfin" : " fin"; std::string out = onStdout([&] { if (c) cengpar_finalize(); else EnGPar_Finalize(); });
  bool up = L.up && !L.ours; if (!up) L.ours = false;
  if (PCU_Comm_Initialized() != up) { viol(up ? "finishing takes down the message layer the user had set up" : "finishing leaves the message layer standing that starting had set up"); L.up = PCU_Comm_Initialized(); return; }
  L.up = up; if (!up) L.comm = MPI_COMM_WORLD;
  if (!out.empty()) viol("finishing prints '%s'", out.c_str());
  stopLog(L, dir, "finishing"); note(up ? "finished_users_layer" : "finished_own_layer");
}
static void lives(Rng& r) {
  std::string dir = scratch() + strf("/l%d", C.caseIdx); char cwd[4096]; bool here = getcwd(cwd, sizeof cwd) != NULL; if (!C.rank) mkdir(dir.c_str(), 0700);
  PMPI_Barrier(MPI_COMM_WORLD); if (here && chdir(dir.c_str())) {}
  Life L = {true, true, -1, false, "", 0, EnGPar_Hit_Error(), MPI_COMM_WORLD}; Rng mine(mix(C.caseSeed, C.rank + 5)); bool fresh = false;
  EnGPar_Set_Verbosity(-1); std::string hist; int steps = r.range(8, 24); MPI_Comm dup; MPI_Comm_dup(MPI_COMM_WORLD, &dup);
  for (int i = 0; i < steps; i++) {
    int w = r.below(14); uint64_t key = r.next(); int v = r.range(-3, 5); bool ord = r.chance(0.7), toDup = r.chance(0.5); Rng q(r.next());
    if (!L.up) {
      if (w < 5) { hist += " user"; PCU_Comm_Init(); L.up = true; L.ours = false; fresh = true; if (!PCU_Comm_Initialized()) viol("messages cannot be sent after starting"); }
      else if (w < 10) { start(L, q, hist); fresh = true; }
      else if (w < 11) stop(L, q, hist, dir);                                      // nothing to finish
      else { if (PCU_Comm_Initialized()) viol("the message layer is standing after it was taken down"); say(L, mine); }
    }
    else if (w < 2) stop(L, q, hist, dir);
    else if (w < 4) start(L, q, hist);                                             // again: does not start twice
    else if (w < 5) { if (!L.ours) { hist += " free"; PCU_Comm_Free(); L.up = false; L.comm = MPI_COMM_WORLD; if (PCU_Comm_Initialized()) viol("the message layer is standing after it was taken down"); } }
    else if (w < 6) { hist += " v"; EnGPar_Set_Verbosity(L.verbosity = v); }
    else if (w < 7) { hist += ord ? " order" : " noorder"; PCU_Comm_Order(ord); fresh = ord; }
    else if (w < 8) { hist += " switch"; L.comm = toDup ? dup : MPI_COMM_WORLD; if (v & 1) EnGPar_Switch_Comm(L.comm); else PCU_Switch_Comm(L.comm); }
    else if (w < 10) { hist += " phase"; identity(L); phase(L, key, fresh); long s = PCU_Add_Long(C.rank + 1); if (s != (long)C.np * (C.np + 1) / 2) viol("the sum of 1 to %d is %ld", C.np, s); }
    else if (w < 11) { hist += " say"; for (int k = 0; k < 6; k++) say(L, mine); }
    else if (w < 13) {
      bool self0 = PCU_Comm_Self() == 0;
      if (!L.log) { hist += " log"; EnGPar_Open_Log(); L.log = true; L.logged.clear(); L.depth = 0; if (EnGPar_Is_Log_Open() != self0) viol("the log is said to be %s on process %d", EnGPar_Is_Log_Open() ? "open" : "closed", C.rank); logging(L, mine); }
      else if (q.chance(0.5)) { hist += " entries"; logging(L, mine); }
      else { hist += " endlog"; EnGPar_Close_Log(); stopLog(L, dir, "closing it"); }
    }
    else if (!L.log) { hist += " graph"; int vb = L.verbosity; GenOpts o; o.maxV = 30; o.ids = 1; Model m = genModel(q, o); Owners own = genOwners(q, m, C.np); Build b = genBuild(q); PCU_Comm_Order(ord); fresh = ord; std::string out = onStdout([&] { Ngraph* g = build(m, own, b); CheckOpts co("between starts"); checkDistributed(g, m, own, co); destroyGraph(g); }); EnGPar_Set_Verbosity(vb); if (!out.empty()) viol("building a graph prints '%s'", out.substr(0, 100).c_str()); note("graphs"); }
    if (!allOk(!bad())) break;
  }
  caseInfo("%s", hist.c_str());
  if (PCU_Comm_Initialized()) { if (L.ours) EnGPar_Finalize(); else { EnGPar_Close_Log(); PCU_Comm_Free(); } }
  if (L.log) { EnGPar_Close_Log(); if (!C.rank) unlink("log.txt"); }
  MPI_Comm_free(&dup);
  EnGPar_Initialize(-1); EnGPar_Set_Verbosity(-1);
  PMPI_Barrier(MPI_COMM_WORLD); if (here && chdir(cwd)) {} if (!C.rank) rmdir(dir.c_str());
  note("histories");
}
// output of every process to a file of its own
static void debugging(Rng& r) {
  std::string dir = scratch() + strf("/d%d", C.caseIdx); char cwd[4096]; bool here = getcwd(cwd, sizeof cwd) != NULL; if (!C.rank) mkdir(dir.c_str(), 0700);
  int v = r.range(-2, 1), times = r.range(1, 3); static const char* modes[] = {"o", "e", "oe", "eo"}; std::string hist;
  PMPI_Barrier(MPI_COMM_WORLD); if (here && chdir(dir.c_str())) {}
  EnGPar_Set_Verbosity(v); std::string mine = dir + strf("/debug/debug%d.txt", C.rank);
  captureStdout(); std::string err = onStderr([&] {
    int keep = dup(1);
    for (int i = 0; i < times; i++) {
      const char* md = modes[r.below(4)]; bool open = v >= 0 && *md != 'x', e = open && strchr(md, 'e'); hist += std::string(" ") + md;
      EnGPar_Debug_Open(md);
      EnGPar_Status_Message("said %d by %d\n", i, C.rank); EnGPar_Error_Message("wrong %d by %d\n", i, C.rank); fflush(stdout); fflush(stderr);
      if (open) {
        std::string s = file(mine), want = strf("ENGPAR said %d by %d\n", i, C.rank) + (e ? strf("[ERROR] ENGPAR wrong %d by %d\n", i, C.rank) : "");
        if (s != want) viol("with debug files (%s) the file of process %d has '%s' instead of '%s'", md, C.rank, s.substr(0, 150).c_str(), want.c_str());
      }
      EnGPar_Debug_Close(); fflush(stdout); dup2(keep, 1);
      note("debug_files", open);
    }
    close(keep);
  });
  EnGPar_Set_Verbosity(-1); std::string out = releaseStdout(); bool any = v >= 0 && hist.find_first_of("oe") != std::string::npos; struct stat st;
  caseInfo("debug files, verbosity %d:%s", v, hist.c_str());
  if (!any && (stat("debug", &st) == 0)) viol("debug files are written at verbosity %d", v);
  if (v < 0) { for (int i = 0; i < times; i++) if (out.find(strf("ENGPAR said %d by %d\n", i, C.rank)) == std::string::npos || err.find(strf("[ERROR] ENGPAR wrong %d by %d\n", i, C.rank)) == std::string::npos) viol("without debug files a message is lost"); }
  PMPI_Barrier(MPI_COMM_WORLD);
  if (any) unlink(mine.c_str());
  PMPI_Barrier(MPI_COMM_WORLD); if (!C.rank) rmdir((dir + "/debug").c_str());
  if (here && chdir(cwd)) {} if (!C.rank) rmdir(dir.c_str());
}
static void run(Rng& r) { if (r.chance(0.15)) debugging(r); else lives(r); }
MODULE("C07", run, NULL, NULL);
