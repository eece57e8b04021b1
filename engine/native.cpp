// Native replay: runs a harness entry, compiled with ASan/UBSan from the same
// sources, on recorded inputs.
#include "vs.h"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <vector>
#include <new>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/wait.h>
#include <sys/resource.h>
#include <exception>
#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#define VS_ASAN 1
#endif
static std::map<std::string, void (*)()> &reg() { static auto *m = new std::map<std::string, void (*)()>; return *m; }
VsReg::VsReg(const char *n, void (*f)()) { reg()[n] = f; }
struct In { std::string n; unsigned w; uint64_t v; };
static std::vector<In> *ins; static size_t pos; static FILE *outf;
static int64_t live; static uint64_t failAt, nalloc; bool vs_fmt_exact_flag;
[[noreturn]] static void die(int rc) { fflush(outf); fflush(stderr); _exit(rc); }
static uint64_t next(const char *n) {
  if (pos >= ins->size() || (*ins)[pos].n != n) { fprintf(outf, "DIVERGE input %zu %s (recorded %s)\n", pos, n, pos < ins->size() ? (*ins)[pos].n.c_str() : "none"); die(78); }
  return (*ins)[pos++].v;
}
extern "C" {
uint64_t vs_sym(const char *n, unsigned) { return next(n); }
uint64_t vs_choice(const char *n, uint64_t) { return next(n); }
uint64_t vs_shard_choice(const char *n, uint64_t) { return next(n); }
void vs_assume(bool b) { if (!b) { fprintf(outf, "ASSUME\n"); die(77); } }
void vs_assert(bool b, const char *id) { if (!b) { fprintf(outf, "ASSERT %s\n", id); die(42); } }
void vs_known(bool ok, const char *id, bool region, const char *f) { if (!ok) { if (region) { fprintf(outf, "KNOWN %s\n", f); die(43); } fprintf(outf, "ASSERT %s\n", id); die(42); } }
void vs_observe(const char *l, uint64_t v) { fprintf(outf, "obs %s %llx\n", l, (unsigned long long)v); fflush(outf); }
void vs_reach(const char *) {}
uint64_t vs_live() { return (uint64_t)live; }
bool vs_is_concrete(uint64_t) { return true; }
void vs_fail_alloc(uint64_t k) { failAt = k; nalloc = 0; }
uint64_t vs_alloc_count() { return nalloc; }
void vs_max_depth(uint64_t) {}
void vs_fmt_exact(bool) {}
}
// operator new with a poisoned 16-byte header holding the size and the form used
#define M_NEW 0x77656e2d7376ull
static void *vnew(size_t n, unsigned kind, bool nothrow) {
  if (failAt) { if (++nalloc == failAt) { failAt = 0; if (nothrow) return nullptr; throw std::bad_alloc(); } }
  if (n > (256u << 20)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  char *p = (char *)malloc(n + 16); if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  uint64_t h[2] = {M_NEW + kind, n}; memcpy(p, h, 16);
#ifdef VS_ASAN
  live -= 16;
  ASAN_POISON_MEMORY_REGION(p, 16);
#else
  live += n;
#endif
  return p + 16;
}
static void vdel(void *q, unsigned kind) {
  if (!q) return; char *p = (char *)q - 16;
#ifdef VS_ASAN
  if (!__asan_address_is_poisoned(p) || __asan_region_is_poisoned(q, 1) == q) { if (__sanitizer_get_ownership(p) == 0) { fprintf(stderr, "ERROR: vs-native: delete of a freed or foreign pointer\n"); fprintf(outf, "FREE\n"); die(44); } }
  ASAN_UNPOISON_MEMORY_REGION(p, 16);
#endif
  uint64_t h[2]; memcpy(h, p, 16);
  if (h[0] != M_NEW + kind) { fprintf(stderr, "ERROR: vs-native: delete does not match the allocation\n"); fprintf(outf, "FREE\n"); die(44); }
#ifdef VS_ASAN
  live += 16;
#else
  live -= h[1];
#endif
  h[0] = 0; memcpy(p, h, 8); free(p);
}
void *operator new(size_t n) { return vnew(n, 2, false); }
void *operator new[](size_t n) { return vnew(n, 3, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return vnew(n, 2, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return vnew(n, 3, true); }
void operator delete(void *p) noexcept { vdel(p, 2); }
void operator delete[](void *p) noexcept { vdel(p, 3); }
void operator delete(void *p, size_t) noexcept { vdel(p, 2); }
void operator delete[](void *p, size_t) noexcept { vdel(p, 3); }
void operator delete(void *p, const std::nothrow_t &) noexcept { vdel(p, 2); }
#ifdef VS_ASAN
static void mh(const volatile void *, size_t n) { live += n; }
static void fh(const volatile void *p) { live -= __sanitizer_get_allocated_size((void *)p); }
extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=45:allocator_may_return_null=1:max_allocation_size_mb=300:detect_stack_use_after_return=0:abort_on_error=0:handle_abort=1:use_sigaltstack=1"; }
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1:exitcode=46"; }
#endif
// usage: native FILE   (one or more recorded vectors; each runs in a child)
int main(int argc, char **argv) {
  std::ios_base::Init warm; std::ifstream f(argv[1]); std::string line, entry; std::vector<In> cur; int n = 0, worst = 0; bool batch = argc > 2;
#ifdef VS_ASAN
  __sanitizer_install_malloc_and_free_hooks(mh, fh);
#endif
  outf = stdout;
  while (std::getline(f, line)) {
    std::istringstream is(line); std::string k; is >> k;
    if (k == "entry") { is >> entry; cur.clear(); }
    else if (k == "in") { In i; std::string v; is >> i.n >> i.w >> v; i.v = strtoull(v.c_str(), 0, 16); cur.push_back(i); }
    else if (k == "end") {
      printf("run %d\n", n++); fflush(stdout);
      auto it = reg().find(entry); if (it == reg().end()) { printf("NOENTRY %s\n", entry.c_str()); return 3; }
      ins = new std::vector<In>(cur); pos = 0;
      pid_t c = fork();
      if (!c) {
        struct rlimit rl = {8u << 20, 8u << 20}; (void)rl; alarm(batch ? 20 : 60);
        if (batch) { if (!freopen("/dev/null", "w", stderr)) _exit(9); }
        try { it->second(); } catch (const std::exception &e) { fprintf(outf, "UNCAUGHT %s\n", e.what()); die(47); } catch (...) { fprintf(outf, "UNCAUGHT\n"); die(47); }
        fprintf(outf, "done\n"); die(0);
      }
      int st; waitpid(c, &st, 0); int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
      printf("rc %d\n", rc); fflush(stdout); if (rc) worst = rc;
    }
  }
  return batch ? 0 : worst;
}
