/* C20: every value a message can carry, and every way a message can end the process.
 * trace: sizes, line numbers and file names in the allocation trace; addr: addresses; counts: totals of the report;
 * ends: every signal disposition x every cause of an abort; bits: which bytes a file name keeps. */
#include "hx.h"
#include "api_prn.h"
#include <pthread.h>
#include <sys/resource.h>
int __real_mprotect(void *, size_t, int);
void *__real_mmap(void *, size_t, int, int, int, off_t);
static int refuse;
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) { if (refuse) { errno = ENOMEM; return MAP_FAILED; } return __real_mmap(a, n, p, f, fd, o); }
void *__wrap_mmap64(void *a, size_t n, int p, int f, int fd, off_t o) { return __wrap_mmap(a, n, p, f, fd, o); }
int __wrap_mprotect(void *a, size_t n, int p) { if (refuse) { errno = ENOMEM; return -1; } return __real_mprotect(a, n, p); }
static int shardi, nshards = 1, fds[3]; static long ctr;
static char curops[600];
#define FAIL(t, ...) do { u64 vi_ = __atomic_fetch_add(&sh->nviol, 1, __ATOMIC_SEQ_CST); if (vi_ < MAXV) { snprintf(sh->v[vi_].what, 400, __VA_ARGS__); hx_cpy(sh->v[vi_].tag, t, 24); hx_cpy(sh->v[vi_].ops, curops, 600); } } while (0)
static int mine(void) { return ctr++ % nshards == shardi; }
static char got[1 << 20], want[1 << 16];
static int on[3];
/* all outputs that are enabled have to agree; the others are empty */
static const char *outs(void) {
  static char t2[1 << 20]; int have = -1; got[0] = 0;
  static const char *const nm[] = {"stdout", "stderr", "the file"};
  for (int i = 0; i < 3; ++i) {
    long r = hx_sys6(SYS_pread64, fds[i], (long)t2, sizeof t2 - 1, 0, 0, 0); t2[r > 0 ? r : 0] = 0;
    if (!on[i]) { if (r > 0) FAIL("sink", "%s is not enabled but got: %.200s", nm[i], t2); continue; }
    if (have < 0) { have = i; for (long k = 0; k <= (r > 0 ? r : 0); ++k) got[k] = t2[k]; }
    else if (!hx_eq(got, t2)) FAIL("sink", "%s got '%.120s' but %s got '%.120s'", nm[have], got, nm[i], t2);
  }
  return got;
}
static void clr(void) { for (int i = 0; i < 3; ++i) hx_clear(fds[i]); }
/* the text, or if it is too long for one message, most of it and nothing else */
static void expect(const char *what) {
  hx_add(&sh->transitions, 1); hx_add(&sh->histories, 1);
  const char *g = outs(); size_t w = hx_len(want), l = hx_len(g);
  hx_cpy(curops, what, sizeof curops);
  if (!(on[0] || on[1] || on[2])) return;
  if (hx_eq(g, want)) return;
  size_t k = 0; while (g[k] && g[k] == want[k]) ++k;
  if (w >= 4000 && l + 1 >= 4000 && (k == l || (g[k] == '\n' && k + 1 == l))) return;
  FAIL("text", "message is '%.150s' instead of '%.150s' (lengths %lu and %lu, equal up to %lu)", g + (k > 60 ? k - 60 : 0), want + (k > 60 ? k - 60 : 0), (unsigned long)l, (unsigned long)w, (unsigned long)k);
}
static char *u2s(char *o, unsigned long v, int base) { char t[70]; int i = 0; do { t[i++] = "0123456789abcdef"[v % base]; v /= base; } while (v); while (i) *o++ = t[--i]; *o = 0; return o; }
static char *i2s(char *o, long v) { unsigned long u = (unsigned long)v; if (v < 0) { *o++ = '-'; u = 0 - u; } return u2s(o, u, 10); }
static char *cat(char *o, const char *s) { while (*s) *o++ = *s++; *o = 0; return o; }
static void one(size_t n, const char *file, int line, const char *file2, int line2) {
  char what[300]; snprintf(what, sizeof what, "malloc(%lu) at %.100s(%d), freed at %.60s(%d)", (unsigned long)n, file, line, file2, line2);
  hx_cpy((char *)sh->sample[7], what, 300);
  prn_file = file; prn_line = line; clr();
  void *p = prn_malloc(n);
  char *o = cat(want, "\nDUMA: Allocating "); o = u2s(o, n, 10); o = cat(o, " byte(s) at "); o = cat(o, file); o = cat(o, "("); o = i2s(o, line); o = cat(o, ").");
  if (!p) { const char *g = outs(); hx_add(&sh->transitions, 1); hx_cpy(curops, what, 300); size_t k = 0; while (want[k] && g[k] == want[k]) ++k; if (want[k] && k < 3900 && (on[0] || on[1] || on[2])) FAIL("text", "message is '%.150s' instead of '%.150s'", g, want); return; }
  expect(what); clr();
  prn_file = file2; prn_line = line2;
  prn_free(p);
  o = cat(want, "\nDUMA: Freeing "); o = u2s(o, n, 10); o = cat(o, " byte(s) at "); o = cat(o, file2); o = cat(o, "("); o = i2s(o, line2); o = cat(o, ") (Allocated from "); o = cat(o, file); o = cat(o, "("); o = i2s(o, line); o = cat(o, ")).");
  expect(what);
  hx_seen(hx_mix(hx_mix(n, (u64)line), hx_mix(hx_len(file), (u64)line2)));
}
static unsigned long edge[4000]; static int ne;
static void edges(void) {
  for (int b = 0; b < 64; ++b) for (int d = -2; d <= 2; ++d) edge[ne++] = (1ul << b) + (unsigned long)d;
  unsigned long t = 1; for (int i = 0; i < 20; ++i, t *= 10) for (int d = -2; d <= 2; ++d) edge[ne++] = t + (unsigned long)d;
  for (int b = 1; b <= 8; ++b) for (int v = 0; v < 256; v += 17) { unsigned long x = 0; for (int i = 0; i < 64; i += b) x |= ((unsigned long)v & ((1ul << b) - 1)) << i; edge[ne++] = x; }
  for (int i = 0; i < 64; i += 4) for (unsigned v = 0; v < 16; ++v) { edge[ne++] = (unsigned long)v << i; edge[ne++] = ~((unsigned long)v << i); }
  edge[ne++] = 0x0123456789abcdeful; edge[ne++] = 0xfedcba9876543210ul; edge[ne++] = 12345678901234567890ul; edge[ne++] = 9876543210987654321ul;
  edge[ne++] = ~0ul; edge[ne++] = 0;
}
static char longname[20000];
static const char *name_of(long n) { for (long i = 0; i < n; ++i) longname[i] = (char)('a' + i % 26); longname[n] = 0; return longname; }
static void trace(long hi, long step) {
  edges();
  for (int i = 0; i < ne; ++i) { /* line numbers */
    int l = (int)edge[i];
    if (mine()) one(1, "f.c", l, "g.c", (int)(edge[i] >> 7));
    if (mine()) one(2, "f.c", -l, "g.c", (int)edge[ne - 1 - i]);
  }
  for (long l = 0; l <= hi; l += step) if (mine()) one(1, "f.c", (int)l, "g.c", (int)-l);
  for (int i = 0; i < ne; ++i) if (edge[i] && (edge[i] < 3000000 || edge[i] > (1ul << 46)) && mine()) one(edge[i], "f.c", 7, "g.c", 8); /* sizes */
  for (long n = 1; n <= hi / 4; n += step) if (mine()) one((size_t)n, "f.c", 7, "g.c", 8);
  for (long n = 0; n < 600; ++n) if (mine()) { static char fn[700]; hx_cpy(fn, name_of(n), sizeof fn); one(3, fn, 1, fn, 2); one(3, fn, 1, "", 2); one(3, "", 1, fn, -2); }
  for (long n = 3800; n < 4300; ++n) if (mine()) one(3, name_of(n), 123456789, "b.c", 2);
  for (long n = 1900; n < 2200; ++n) if (mine()) one(3, name_of(n), 123456789, longname, -2);
  for (long n = 5000; n < 19000; n += 1777) if (mine()) one(3, name_of(n), -123456789, longname, -2);
  for (int c = 1; c < 256; ++c) for (int c2 = 0; c2 < 256; c2 += c < 3 || c == '%' || c == '\\' ? 1 : 255) if (mine()) { char z[8] = {'x', (char)c, (char)(c2 ? c2 : 'y'), 'z', 0}; one(5, z, 3, z + 1, 4); } /* every byte, every pair with % */
}
/* in a process of its own: must end, with the address in the message */
static int died(void (*f)(void *), void *arg) {
  clr();
  int pid = fork();
  if (!pid) { alarm(20); f(arg); hx_sys3(SYS_exit_group, 0, 0, 0); }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
  hx_add(&sh->deaths, 1); hx_add(&sh->transitions, 1); hx_add(&sh->histories, 1);
  return st;
}
static void realloc_it(void *p) { (void)!prn_realloc(p, 77); }
static void addrs(void) {
  edges();
  for (int i = 0; i < ne; ++i) for (int w = 0; w < 3; ++w) if (edge[i] && mine()) {
    char t[80], u[40]; u2s(u, edge[i], 16); snprintf(curops, sizeof curops, "%s of the foreign address %s", w == 2 ? "realloc" : w ? "check" : "free", u);
    prn_file = "f.c"; prn_line = 3; hx_cpy((char *)sh->sample[7], curops, 300);
    int st = died(w == 2 ? realloc_it : w ? prn_check : prn_free, (void *)edge[i]);
    const char *g = outs();
    if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGILL)) { FAIL("end", "process not ended (status %x): %.200s", st, g); continue; }
    if (!(on[0] || on[1] || on[2])) continue;
    char *o = cat(t, "("); o = cat(o, u); cat(o, w == 2 ? ", 77)" : ")");
    if (!hx_find(g, t)) FAIL("text", "the message does not show the address: %.300s", g);
    if (!hx_pre(g, "\nDUMA Aborting: ") || g[hx_len(g) - 1] != '\n') FAIL("text", "message is incomplete: %.300s", g);
    hx_seen(hx_mix(edge[i], (u64)w));
  }
}
static void counts(long n) { /* needs DUMA_SHOW_ALLOC=1 */
  static void *p[5000]; long na = -1, nd = 0;
  for (long i = 0; i < n; ++i) {
    snprintf(curops, sizeof curops, "%ld allocations, report", i);
    clr(); prn_report(); const char *g = outs();
    const char *a = hx_find(g, "  Allocation(s): "), *d = hx_find(g, "Deallocation(s): "), *r = hx_find(g, "Reported ");
    hx_add(&sh->transitions, 1); hx_add(&sh->histories, 1); hx_seen((u64)i);
    if (!a || !d || (!r && i)) { FAIL("text", "report lacks its totals: %.300s", g); return; }
    long va = hx_num(a + 17), vd = hx_num(d + 17), vr = r ? hx_num(r + 9) : 0;
    char t[200]; char *o = cat(t, "  Allocation(s): "); o = i2s(o, va); o = cat(o, "\nDUMA: Deallocation(s): "); o = i2s(o, vd); cat(o, "\n");
    if (!hx_pre(a, t)) FAIL("text", "totals are not printed as numbers: %.300s", a);
    if (vr != i) FAIL("text", "report counts %ld blocks, there are %ld", vr, i);
    if (na >= 0 && (va - vd != na - nd + 1 || va <= na)) FAIL("text", "after one more allocation the totals are %ld/%ld, were %ld/%ld", va, vd, na, nd);
    na = va; nd = vd;
    p[i] = prn_malloc(1);
  }
  for (long i = 0; i < n; ++i) prn_free(p[i]);
  clr(); prn_report(); const char *d = hx_find(outs(), "Deallocation(s): ");
  
  const char *a = hx_find(got, "  Allocation(s): ");
  if (!d || !a || hx_num(a + 17) - hx_num(d + 17) != na - nd + 1 - n) FAIL("text", "after %ld releases: %.200s", n, d ? d : got);
}
/* ---- an abort ends the process */
static void back(int s) { (void)s; }
static void a_double(void *p) { prn_free(p); prn_free(p); }
static void a_bad(void *p) { (void)p; prn_free((void *)0x1000); }
static void a_check(void *p) { prn_check((char *)p + 100000); }
static void a_slack(void *p) { ((char *)p)[-1] ^= 1; prn_free(p); }
static void a_realloc(void *p) { (void)!prn_realloc((char *)p + 1, 5); }
static void a_align(void *p) { (void)p; (void)!prn_memalign(12, 5); }
static void a_oom(void *p) { (void)p; refuse = 1; for (;;) if (!prn_malloc(100000)) break; refuse = 0; }
static void a_prot(void *p) { refuse = 1; prn_free(p); refuse = 0; }
static void a_assert(void *p) { (void)p; prn_assert(0); }
static struct { const char *n; void (*f)(void *); const char *ph; } ACT[] = {{"double free", a_double, "DUMA Aborting: "}, {"bad pointer", a_bad, "DUMA Aborting: "}, {"check of a foreign address", a_check, "DUMA Aborting: "}, {"overwritten no man's land", a_slack, "DUMA Aborting: "}, {"realloc of an inner address", a_realloc, "DUMA Aborting: "}, {"bad alignment", a_align, "DUMA Aborting: "}, {"out of memory", a_oom, ""}, {"refused protection", a_prot, ""}, {"assertion", a_assert, "DUMA_ASSERT("}};
static int disp, wher; static void (*theact)(void *); static int *survived;
static void *thr(void *p) { theact(p); *survived = 1; return 0; }
static void setsig(int sig, void (*h)(int), int flags) { struct sigaction sa; for (size_t i = 0; i < sizeof sa; ++i) ((volatile u8 *)&sa)[i] = 0; sa.sa_handler = h; sa.sa_flags = flags; sigaction(sig, &sa, 0); }
static void runact(void *p) {
  sigset_t all; sigfillset(&all); sigdelset(&all, SIGALRM);
  int both = theact == a_assert ? SIGSEGV : SIGILL;
  if (disp == 1) setsig(both, SIG_IGN, 0);
  if (disp == 2 && both == SIGILL) setsig(both, back, 0);
  if (disp == 3) sigprocmask(SIG_BLOCK, &all, 0);
  if (disp == 4) { setsig(SIGILL, SIG_IGN, 0); sigprocmask(SIG_BLOCK, &all, 0); }
  if (disp == 5 && both == SIGILL) setsig(both, back, SA_RESETHAND | SA_NODEFER);
  if (disp == 6) { for (int s = 1; s < 32; ++s) if (s != SIGALRM && s != SIGSEGV && s != SIGCHLD) setsig(s, SIG_IGN, 0); }
  if (wher == 0) { theact(p); *survived = 1; }
  else if (wher == 1) { pthread_t t; pthread_create(&t, 0, thr, p); pthread_join(t, 0); *survived = 1; }
  else if (wher == 2) { int pid = fork(); if (!pid) { theact(p); *survived = 1; hx_sys3(SYS_exit_group, 0, 0, 0); } int st; while (waitpid(pid, &st, 0) < 0) ; if (WIFSIGNALED(st)) hx_sys3(SYS_exit_group, 3, 0, 0); hx_sys3(SYS_exit_group, WEXITSTATUS(st), 0, 0); }
  for (;;) hx_sys3(SYS_exit_group, 0, 0, 0);
}
static void ends(void) {
  static const char *const D[] = {"default", "ignored", "caught", "blocked", "ignored and blocked", "caught once", "everything ignored"}, *const W[] = {"", " in a thread", " in a child process"};
  static char ref[sizeof ACT / sizeof *ACT][3000];
  survived = (int *)hx_mmap_shared(4096);
  for (unsigned a = 0; a < sizeof ACT / sizeof *ACT; ++a) for (wher = 0; wher < 3; ++wher) for (disp = 0; disp < 7; ++disp) {
    prn_file = "f.c"; prn_line = 3;
    snprintf(curops, sizeof curops, "%s%s, signals: %s", ACT[a].n, W[wher], D[disp]);
    void *p = prn_malloc(5); theact = ACT[a].f; *survived = 0; /* 5 bytes in front of the guard: bytes before are checked */
    int st = died(runact, p); const char *g = outs(); prn_free(p);
    hx_seen(hx_mix(a * 100 + (unsigned)wher * 10 + (unsigned)disp, 5));
    if (*survived) FAIL("end", "the program goes on (status %x): %.200s", st, g);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) FAIL("end", "the process neither ends nor goes on");
    if (!(on[0] || on[1] || on[2])) continue;
    if (*ACT[a].ph ? !hx_find(g, ACT[a].ph) : !hx_find(g, "DUMA")) FAIL("text", "no diagnostic: %.200s", g);
    size_t n = 0; for (const char *q = g; (q = hx_find(q, "DUMA Aborting")); ++q) ++n;
    if (n > 1 && !hx_find(g, "\nDUMA Aborting: Preload")) FAIL("text", "the diagnostic is written %lu times: %.300s", (unsigned long)n, g);
    if (wher == 0 && disp == 0) hx_cpy(ref[a], g, 3000);
    else if (ACT[a].f != a_oom && ACT[a].f != a_prot && hx_len(ref[a]) != hx_len(g)) FAIL("text", "message differs from the one with default signals: '%.150s' and '%.150s'", g, ref[a]);
  }
}
static long envn(char **e, const char *n, long d) { size_t l = hx_len(n); for (; *e; ++e) if (hx_pre(*e, n) && (*e)[l] == '=') return hx_num(*e + l + 1); return d; }
static void pre(int argc, char **argv, char **envp) { (void)argc; (void)argv; (void)envp; sh = (struct Shared *)hx_mmap_shared(sizeof *sh); for (int i = 0; i < 3; ++i) fds[i] = (int)hx_memfd(); hx_sys3(SYS_dup2, fds[2], 900, 0); }
__attribute__((section(".preinit_array"), used)) static void (*pre_p)(int, char **, char **) = pre;
int main(int argc, char **argv, char **envp) {
  const char *mode = argc > 1 ? argv[1] : ""; long hi = 1000, step = 1, tmo = 600;
  for (int i = 2; i < argc; ++i) {
    char *a = argv[i];
    if (hx_pre(a, "shard=")) shardi = (int)hx_num(a + 6); else if (hx_pre(a, "nshards=")) nshards = (int)hx_num(a + 8);
    else if (hx_pre(a, "hi=")) hi = hx_num(a + 3); else if (hx_pre(a, "step=")) step = hx_num(a + 5); else if (hx_pre(a, "tmo=")) tmo = hx_num(a + 4);
    else hx_fatal(a);
  }
  on[0] = envn(envp, "DUMA_OUTPUT_STDOUT", 0) != 0; on[1] = envn(envp, "DUMA_OUTPUT_STDERR", 1) != 0;
  for (char **e = envp; *e; ++e) if (hx_eq(*e, "DUMA_OUTPUT_FILE=/proc/self/fd/900")) on[2] = 1;
  int pid = fork();
  if (!pid) {
    alarm((unsigned)tmo);
    dup2(fds[0], 1); dup2(fds[1], 2); dup2(fds[2], 900);
    struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = 24; setrlimit(RLIMIT_NOFILE, &rl); /* a descriptor that stays open is noticed */
    if (hx_eq(mode, "trace")) trace(hi, step);
    else if (hx_eq(mode, "addr")) addrs();
    else if (hx_eq(mode, "counts")) counts(hi);
    else if (hx_eq(mode, "ends")) ends();
    else hx_fatal(mode);
    hx_sys3(SYS_exit_group, 0, 0, 0);
  }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 99) return 99;
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { hx_cpy(curops, (char *)sh->sample[7], sizeof curops); FAIL("crash", "process ended (status %x) in %s: %.200s", st, curops, hx_readcap(fds[1])); }
  hx_cpy(sh->sample[0], (char *)sh->sample[7], 500); sh->sampled = 1;
  hx_write(1, "\n"); hx_report(1);
  hx_sys3(SYS_exit_group, sh->nviol ? 1 : 0, 0, 0);
}
