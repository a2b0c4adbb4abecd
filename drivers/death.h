// Runs something in a child that may be stopped by the code under test, and tells how it ended and what it said first.
#pragma once
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include "tcmalloc/internal/logging.h"
namespace death {
struct Shared { volatile int done; volatile int info[8]; char text[1 << 14]; volatile int len; };
inline Shared* sh;
inline void Writer(const char* m, int n) {
  if (sh == nullptr || n < 0) return;
  for (int i = 0; i < n && sh->len < (int)sizeof(sh->text) - 2; ++i) { sh->text[sh->len] = m[i]; sh->len = sh->len + 1; }
  sh->text[sh->len] = 0;
}
inline void Start() {
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
}
// 0: it ran to its end.  Otherwise the signal.
template <typename F> int Run(F f) {
  sh->done = 0; sh->len = 0; sh->text[0] = 0; for (auto& x : sh->info) x = -1;
  pid_t p = fork();
  if (p == 0) {
    int fd = memfd_create("null", 0); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
    alarm(20);
    tcmalloc::tcmalloc_internal::log_message_writer = Writer;
    f(); sh->done = 1; _exit(0);
  }
  int st = 0; waitpid(p, &st, 0);
  if (sh->done) return 0;
  return WIFSIGNALED(st) ? WTERMSIG(st) : 200 + WEXITSTATUS(st);
}
inline bool Said(const char* s) { return strstr(sh->text, s) != nullptr; }
// Which report was it?
inline const char* Kind() {
  if (Said("Use-after-free (read)")) return "uaf_read";
  if (Said("Use-after-free (write)")) return "uaf_write";
  if (Said("Buffer underflow (read)")) return "under_read";
  if (Said("Buffer underflow (write)")) return "under_write";
  if (Said("Buffer overflow (read)")) return "over_read";
  if (Said("Buffer overflow (write) detected")) return "over_free";
  if (Said("Buffer overflow (write)")) return "over_write";
  if (Said("Double free occurs")) return "double_guarded";
  if (Said("double free detected")) return "double";
  if (Said("Mismatched-size-delete")) return "size";
  if (Said("Mismatched-size-class")) return "class";
  if (Said("Deallocating") && Said("with alignment")) return "align";
  if (Said("Deallocating")) return "type";
  if (Said("Expected alignment")) return "misaligned";
  if (Said("never allocated")) return "corrupt";
  if (Said("CHECK in") || Said("assert")) return "check";
  if (sh->len) return "other";
  return "none";
}
}  // namespace death
