/* C22: a program that knows nothing of DUMA, run with the library preloaded (or linked): every form of allocation x every
 * misuse x every size of the table, each in a process of its own. */
#include "hx.h"
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <pthread.h>
static char curops[600];
#define FAIL(t, ...) do { u64 vi_ = __atomic_fetch_add(&sh->nviol, 1, __ATOMIC_SEQ_CST); if (vi_ < MAXV) { snprintf(sh->v[vi_].what, 400, __VA_ARGS__); hx_cpy(sh->v[vi_].tag, t, 24); hx_cpy(sh->v[vi_].ops, curops, 600); } } while (0)
enum { FC, FN, FA };
static const struct { const char *name; int fam; size_t al; } A[] = {{"malloc", FC, 0}, {"calloc", FC, 0}, {"realloc(0)", FC, 0}, {"realloc grown", FC, 0}, {"realloc shrunk", FC, 0}, {"memalign 16", FC, 16}, {"memalign 4096", FC, 4096}, {"posix_memalign 64", FC, 64}, {"aligned_alloc 32", FC, 32}, {"valloc", FC, 4096}, {"strdup", FC, 0}
#ifdef __cplusplus
, {"new", FN, 0}, {"new nothrow", FN, 0}, {"new[]", FA, 0}, {"new[] nothrow", FA, 0}
#endif
};
#define NA ((int)(sizeof A / sizeof A[0]))
#ifdef __cplusplus
#include <new>
#endif
static char big[20000];
static u8 *alloc(int a, size_t n) {
  void *p = 0; size_t i;
  switch (a) {
  case 0: p = malloc(n); break; case 1: p = calloc(n, 1); for (i = 0; i < n; ++i) if (((u8 *)p)[i]) hx_sys3(SYS_exit_group, 20, 0, 0); break;
  case 2: p = realloc(0, n); break; case 3: p = realloc(memset(malloc(n / 2 + 1), 7, n / 2 + 1), n); for (i = 0; i < n / 2; ++i) if (((u8 *)p)[i] != 7) hx_sys3(SYS_exit_group, 21, 0, 0); break;
  case 4: p = realloc(memset(malloc(n * 2 + 3), 9, n * 2 + 3), n); for (i = 0; i < n; ++i) if (((u8 *)p)[i] != 9) hx_sys3(SYS_exit_group, 22, 0, 0); break;
  case 5: p = memalign(16, n); break; case 6: p = memalign(4096, n); break; case 7: if (posix_memalign(&p, 64, n)) p = 0; break; case 8: p = aligned_alloc(32, n); break; case 9: p = valloc(n); break;
  case 10: for (i = 0; i + 1 < n; ++i) big[i] = 'a'; big[i] = 0; p = strdup(big); for (i = 0; i < n; ++i) if (((char *)p)[i] != big[i]) hx_sys3(SYS_exit_group, 23, 0, 0); break;
#ifdef __cplusplus
  case 11: p = operator new(n); break; case 12: p = operator new(n, std::nothrow); break; case 13: p = operator new[](n); break; case 14: p = operator new[](n, std::nothrow); break;
#endif
  }
  if (!p) hx_sys3(SYS_exit_group, 24, 0, 0);
  if (A[a].al && (up)p % A[a].al) hx_sys3(SYS_exit_group, 25, 0, 0);
  return (u8 *)p;
}
static void release(int f, u8 *p) {
#ifdef __cplusplus
  if (f == FN) { operator delete(p); return; }
  if (f == FA) { operator delete[](p); return; }
#endif
  (void)f; free(p);
}
static const char *const U[] = {"used properly", "write behind", "read behind", "write a page behind", "write before", "read before", "write after release", "read after release", "last byte after release", "released twice", "inner address released", "released with another form", "padding written", "padding written, all checked at exit", "stack address released", "used by several threads", "realloc after release", "size asked", "size asked after release", "resized and used"};
#define NU 20
static void *thr(void *q) { int a = *(int *)q; for (int i = 0; i < 20; ++i) { u8 *p = alloc(a == 10 ? 0 : a, 60); memset(p, i, 60); u8 *r = alloc(0, 9); r[8] = 1; release(A[a].fam == FC ? FC : A[a].fam, p); free(r); } return 0; }
#ifdef __cplusplus
extern "C"
#endif
void duma_init(void) __attribute__((weak));
int main(int argc, char **argv) {
  int below = 0, lib = 1, shardi = 0, nshards = 1, nocpp = 0, glob = 1, init = 0, few = 0; size_t al = 1; long ctr = 0; const char *e;
  sh = (struct Shared *)hx_mmap_shared(sizeof *sh);
  for (int i = 2; i < argc; ++i) { if (hx_pre(argv[i], "shard=")) shardi = (int)hx_num(argv[i] + 6); else if (hx_pre(argv[i], "nshards=")) nshards = (int)hx_num(argv[i] + 8); else if (hx_pre(argv[i], "nocpp")) nocpp = 1; else if (hx_pre(argv[i], "noglobal")) glob = 0; else if (hx_pre(argv[i], "init")) init = 1; else if (hx_pre(argv[i], "few")) few = 1; }
  if ((e = getenv("DUMA_PROTECT_BELOW"))) below = *e != '0';
  if ((e = getenv("DUMA_ALIGNMENT"))) al = (size_t)hx_num(e);
  (void)lib;
  static const size_t N[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 100, 255, 256, 1000, 2048, 4000, 4080, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 9000};
  int fd = (int)hx_memfd();
  if (init && duma_init) duma_init();
  for (int a = 0; a < NA; ++a) for (int u = 0; u < NU; ++u) for (size_t ni = 0; ni < sizeof N / sizeof N[0]; ++ni) {
    if (few && ni % 4 != (size_t)(a + u) % 4) continue;
    if (ctr++ % nshards != shardi) continue;
    size_t n = N[ni], ea = A[a].al ? A[a].al : al; if (!A[a].al && n < ea) { ea = 1; while (ea * 2 <= n) ea *= 2; }
    size_t slack = below ? ((n + 4095) & ~(size_t)4095) - n : ea >= 4096 ? ((n + 4095) & ~(size_t)4095) - n : (ea - n % ea) % ea;
    int fam = nocpp ? FC : A[a].fam;
    int segv = 0, rep = 0, ok = 0, any = 0;
    if (u == 9 || u == 10 || u == 14 || u == 16 || u == 18) rep = 1;
    else if (u == 1 || u == 2) { if (below) continue; segv = 1; }
    else if (u == 3) { if (below) continue; segv = 1; }
    else if (u == 4 || u == 5) { if (!below) continue; segv = 1; }
    else if (u == 6 || u == 7 || u == 8) segv = 1;
    else if (u == 11) { if (NA == 11 || nocpp) continue; rep = 1; }
    else if (u == 12 || u == 13) { if (!slack) continue; rep = 1; if (u == 13) continue; }
    else ok = 1;
    if (!glob && !A[a].fam && u == 7) { segv = 0; ok = 1; } /* the C library's own functions, as they are */
    else if (!glob && !A[a].fam) continue;
    if (!glob && (u == 10 || u == 14 || u == 16 || u == 17 || u == 18 || u == 19 || u == 11)) continue;
    if (u == 10 && n < 2) continue;
    snprintf(curops, 600, "%s(%lu) %s", A[a].name, (unsigned long)n, U[u]); hx_add(&sh->transitions, 1); hx_add(&sh->histories, 1); hx_seen(hx_mix((u64)(a * 32 + u), n));
    hx_clear(fd);
    int pid = fork();
    if (!pid) {
      hx_sys3(SYS_dup2, fd, 2, 0); alarm(30);
      if (u == 15) { pthread_t t[4]; for (int i = 0; i < 4; ++i) pthread_create(&t[i], 0, thr, &a); for (int i = 0; i < 4; ++i) pthread_join(t[i], 0); hx_sys3(SYS_exit_group, 7, 0, 0); }
      u8 *q = alloc(0, 30), *p, *r; memset(q, 1, 30); p = alloc(a, n); r = alloc(0, 3000); memset(r, 2, 3000);
      memset(p, 3, n);
      for (int i = 0; i < 30; ++i) if (q[i] != 1) hx_sys3(SYS_exit_group, 30, 0, 0);
      for (int i = 0; i < 3000; ++i) if (r[i] != 2) hx_sys3(SYS_exit_group, 31, 0, 0);
      for (size_t i = 0; i < n; ++i) if (p[i] != 3) hx_sys3(SYS_exit_group, 32, 0, 0);
      volatile u8 *v = p; size_t ext = (n + slack + 0); if (below) ext = ((n + 4095) & ~(size_t)4095);
      if (a >= 5 && a <= 9 && !below && A[a].al < 4096) { ext = n + slack; }
      switch (u) {
      case 0: release(fam, p); free(q); memset(r, 5, 3000); free(r); break;
      case 1: v[ext] = 1; break; case 2: (void)v[ext]; break; case 3: v[((n + 4095) & ~(size_t)4095) + 4096 * (below != 0)] = 1; break;
      case 4: v[-1] = 1; break; case 5: (void)v[-1]; break;
      case 6: release(fam, p); v[0] = 1; break; case 7: release(fam, p); (void)v[0]; break; case 8: release(fam, p); v[n - 1] = 1; break;
      case 9: release(fam, p); release(fam, p); break; case 10: release(fam, p + 1); break;
      case 11: release((fam + 1 + (int)(n & 1)) % 3, p); break;
      case 12: v[n] ^= 0x5a; release(fam, p); break;
      case 14: release(fam, (u8 *)curops); break;
      case 16: release(fam, p); p = (u8 *)realloc(p, 40); break;
      case 17: if (malloc_usable_size(p) < n) hx_sys3(SYS_exit_group, 33, 0, 0); break;
      case 18: release(fam, p); if (malloc_usable_size(p) == 12345) hx_sys3(SYS_exit_group, 33, 0, 0); break;
      case 19: if (fam == FC) { p = (u8 *)realloc(p, n + 500); for (size_t i = 0; i < n; ++i) if (p[i] != 3) hx_sys3(SYS_exit_group, 34, 0, 0); memset(p, 4, n + 500); free(p); } break;
      }
      hx_sys3(SYS_exit_group, 7, 0, 0);
    }
    int st; waitpid(pid, &st, 0);
    const char *t = hx_readcap(fd); int sg = WIFSIGNALED(st) ? WTERMSIG(st) : 0, ex = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    if (!ok) hx_add(&sh->deaths, 1);
    (void)any;
    if (ok && ex != 7) FAIL("legal", "a legal program ended with %s %d: %.200s", sg ? "signal" : "status", sg ? sg : ex, t);
    else if (ok && hx_find(t, "DUMA A")) FAIL("legal", "a legal program made DUMA complain: %.200s", t);
    if (segv && sg != SIGSEGV && sg != SIGBUS) FAIL("access", "the access did not fault: %s %d %.100s", sg ? "signal" : "status", sg ? sg : ex, t);
    if (rep && (ex == 7 || ((u != 18 && u != 16) && !hx_find(t, "DUMA Abort")))) FAIL("bad", "not reported: %s %d %.100s", sg ? "signal" : "status", sg ? sg : ex, t);
    if (sh->nviol > 8) break;
  }
  hx_report(1);
  return sh->nviol ? 1 : 0;
}
