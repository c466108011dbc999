// Operations that must fail loudly, tried in a child of a single-process run.
#ifndef MON_FAULTS_H
#define MON_FAULTS_H
#include "common.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
// "" if the operation reported an error (abnormal end or exception, with a message), else what happened
inline std::string mustFail(const std::function<void()>& f, std::string* said = NULL) {
  int fd = memfd_create("err", 0);
  fflush(stdout); fflush(stderr); fflush(C.log);
  pid_t p = fork();
  if (!p) {
    dup2(fd, 2); dup2(fd, 1);
    signal(SIGALRM, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL); alarm(20);
    try { f(); } catch (...) { fflush(stdout); fflush(stderr); _exit(7); }
    fflush(stdout); fflush(stderr); _exit(0);
  }
  int st = 0; waitpid(p, &st, 0);
  char b[4001]; ssize_t n = pread(fd, b, 4000, 0); if (n < 0) n = 0; b[n] = 0; close(fd);
  if (said) *said = b;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "it returns as if nothing was wrong";
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) return "it does not end";
  if (strstr(b, "AddressSanitizer") || strstr(b, "runtime error:")) { char* q = strstr(b, "Sanitizer: "); if (!q) q = strstr(b, "runtime error"); std::string s(q ? q : b); return "it crashes: " + s.substr(0, 120); }
  if (WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT) return strf("it dies with signal %d", WTERMSIG(st));
  if (!n && !(WIFEXITED(st) && WEXITSTATUS(st) == 7)) return "it ends without any message";
  return "";
}
#endif
