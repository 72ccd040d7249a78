/* Harness runtime shared by all engines: no heap, no stdio, ground truth from the kernel. */
#ifndef HX_H
#define HX_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

typedef unsigned char u8;
typedef uint64_t u64;
typedef uintptr_t up;

#define PG ((up)4096)
static inline up pgdn(up a) { return a & ~(PG - 1); }
static inline up pgup(up a) { return (a + PG - 1) & ~(PG - 1); }

/* raw system calls: never go through wrapped or replaced functions */
static inline long hx_sys3(long n, long a, long b, long c) {
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
  return r;
}
static inline long hx_sys6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  __asm__ volatile("mov %5, %%r10; mov %6, %%r8; mov %7, %%r9; syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "m"(d), "m"(e), "m"(f) : "rcx", "r8", "r9", "r10", "r11", "memory");
  return r;
}
static void *hx_mmap_shared(size_t n) {
  return (void *)hx_sys6(SYS_mmap, 0, (long)n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
static size_t hx_len(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
static int hx_eq(const char *a, const char *b) { while (*a && *a == *b) ++a, ++b; return *a == *b; }
static int hx_pre(const char *s, const char *p) { while (*p) if (*s++ != *p++) return 0; return 1; }
static const char *hx_find(const char *h, const char *n) {
  if (!*n) return h;
  for (; *h; ++h) { const char *a = h, *b = n; while (*b && *a == *b) ++a, ++b; if (!*b) return h; }
  return 0;
}
static void hx_cpy(char *d, const char *s, size_t cap) { size_t i = 0; for (; s[i] && i + 1 < cap; ++i) d[i] = s[i]; d[i] = 0; }
static long hx_num(const char *s) { /* decimal or 0x, optional minus, suffix k/m */
  int neg = 0; unsigned long v = 0;
  if (*s == '-') { neg = 1; ++s; }
  if (s[0] == '0' && s[1] == 'x') { for (s += 2;; ++s) { int d; if (*s >= '0' && *s <= '9') d = *s - '0'; else if (*s >= 'a' && *s <= 'f') d = *s - 'a' + 10; else break; v = v * 16 + d; } }
  else for (; *s >= '0' && *s <= '9'; ++s) v = v * 10 + (*s - '0');
  if (*s == 'k') v <<= 10; else if (*s == 'm') v <<= 20;
  return neg ? -(long)v : (long)v;
}
static void hx_write(int fd, const char *s) { size_t n = hx_len(s); while (n) { long r = hx_sys3(SYS_write, fd, (long)s, (long)n); if (r <= 0) break; s += r; n -= r; } }

/* ---------------- memory map ---------------- */
struct Seg { up lo, hi; u8 prot; /* 1 r, 2 w, 4 x ; 0 = PROT_NONE */ };
#define MAXSEG 40000
static struct Seg hx_base[4096]; static int hx_nbase;      /* accessible mappings that are not DUMA's */
static struct Seg hx_ball[4096]; static int hx_nball;      /* all mappings at baseline */
static struct Seg hx_cur[MAXSEG]; static int hx_ncur;       /* current accessible, minus baseline */
static struct Seg hx_none[MAXSEG]; static int hx_nnone;     /* current PROT_NONE, minus baseline */
static char hx_mapbuf[8 << 20];

typedef void (*hx_segfn)(up lo, up hi, int prot, const char *name);
static void hx_fatal(const char *m) { for (int f = 1; f < 3; ++f) { hx_write(f, "HARNESS-ERROR: "); hx_write(f, m); hx_write(f, "\n"); } hx_sys3(SYS_exit_group, 99, 0, 0); }
static void hx_readmaps(hx_segfn fn) {
  int fd = (int)hx_sys3(SYS_open, (long)"/proc/self/maps", O_RDONLY | O_CLOEXEC, 0);
  if (fd < 0) hx_fatal("cannot open /proc/self/maps");
  size_t n = 0;
  for (;;) {
    long r = hx_sys3(SYS_read, fd, (long)(hx_mapbuf + n), (long)(sizeof hx_mapbuf - 1 - n));
    if (r < 0) hx_fatal("read maps");
    if (r == 0) break;
    n += r;
    if (n + 1 >= sizeof hx_mapbuf) hx_fatal("maps too large");
  }
  hx_sys3(SYS_close, fd, 0, 0);
  hx_mapbuf[n] = 0;
  char *s = hx_mapbuf;
  while (*s) {
    up lo = 0, hi = 0; int prot = 0;
    for (; *s != '-'; ++s) lo = lo * 16 + (*s <= '9' ? *s - '0' : *s - 'a' + 10);
    for (++s; *s != ' '; ++s) hi = hi * 16 + (*s <= '9' ? *s - '0' : *s - 'a' + 10);
    ++s;
    if (s[0] == 'r') prot |= 1;
    if (s[1] == 'w') prot |= 2;
    if (s[2] == 'x') prot |= 4;
    char *e = s; while (*e && *e != '\n') ++e;
    char *nm = e; /* name = after last space run, if it starts with [ or / */
    { char *q = s; int f = 0; while (q < e && f < 4) { while (q < e && *q != ' ') ++q; while (q < e && *q == ' ') ++q; ++f; } nm = q; }
    char sv = *e; *e = 0;
    fn(lo, hi, prot, nm);
    *e = sv;
    s = *e ? e + 1 : e;
  }
}
static void hx_cb_base(up lo, up hi, int prot, const char *nm) {
  (void)nm;
  if (hx_nball < 4096) { struct Seg z = {lo, hi, (u8)prot}; hx_ball[hx_nball++] = z; }
  if (prot && hx_nbase < 4096) { struct Seg z = {lo, hi, (u8)prot}; hx_base[hx_nbase++] = z; }
}
static void hx_snapshot_base(void) { hx_nbase = hx_nball = 0; hx_readmaps(hx_cb_base); }
static int hx_special(const char *nm) { return nm[0] == '[' && !(nm[1] == 'a' && nm[2] == 'n'); }
static void hx_sub(struct Seg *base, int nb, struct Seg *out, int *no, up lo, up hi, int prot) {
  /* out += [lo,hi) minus base (base sorted) */
  int a = 0, b = nb;
  while (a < b) { int m = (a + b) / 2; if (base[m].hi <= lo) a = m + 1; else b = m; }
  for (; a < nb && lo < hi; ++a) {
    if (base[a].lo >= hi) break;
    if (base[a].lo > lo) { if (*no < MAXSEG) { struct Seg z = {lo, base[a].lo, (u8)prot}; out[(*no)++] = z; } else hx_fatal("too many segments"); }
    if (base[a].hi > lo) lo = base[a].hi;
  }
  if (lo < hi) { if (*no < MAXSEG) { struct Seg z = {lo, hi, (u8)prot}; out[(*no)++] = z; } else hx_fatal("too many segments"); }
}
static void hx_cb_cur(up lo, up hi, int prot, const char *nm) {
  if (hx_special(nm)) return;
  if (prot) hx_sub(hx_base, hx_nbase, hx_cur, &hx_ncur, lo, hi, prot);
  else hx_sub(hx_ball, hx_nball, hx_none, &hx_nnone, lo, hi, 0);
}
static void hx_snapshot_cur(void) { hx_ncur = hx_nnone = 0; hx_readmaps(hx_cb_cur); }
/* is [lo,hi) fully accessible read+write in hx_cur? */
static int hx_all_rw(up lo, up hi) {
  for (int i = 0; i < hx_ncur && lo < hi; ++i) if (hx_cur[i].lo <= lo && lo < hx_cur[i].hi) { if ((hx_cur[i].prot & 3) != 3) return 0; lo = hx_cur[i].hi; }
  return lo >= hi;
}
static int hx_any_acc(up lo, up hi) {
  for (int i = 0; i < hx_ncur; ++i) if (hx_cur[i].lo < hi && lo < hx_cur[i].hi) return 1;
  return 0;
}
static int hx_is_none(up a) { for (int i = 0; i < hx_nnone; ++i) if (hx_none[i].lo <= a && a < hx_none[i].hi) return 1; return 0; }
static int hx_base_acc(up a) { for (int i = 0; i < hx_nbase; ++i) if (hx_base[i].lo <= a && a < hx_base[i].hi) return 1; return 0; }

/* ---------------- fault probes ---------------- */
static sigjmp_buf hx_jb; static volatile sig_atomic_t hx_probing;
static u8 hx_altstack[65536];
static void hx_onsegv(int sig, siginfo_t *si, void *uc) {
  (void)si; (void)uc;
  if (hx_probing) { hx_probing = 0; siglongjmp(hx_jb, 1); }
  struct { void *h; unsigned long fl; void *rest; u64 mask; } sa = {0, 0, 0, 0};
  hx_sys6(SYS_rt_sigaction, sig, (long)&sa, 0, 8, 0, 0);
  /* returning re-executes the faulting instruction with the default action */
}
static void hx_install_segv(void) {
  struct sigaction sa;
  for (size_t i = 0; i < sizeof sa; ++i) ((volatile u8 *)&sa)[i] = 0;
  sa.sa_sigaction = hx_onsegv; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
}
/* 1 if reading (w=0) / writing (w=1, same value) the byte faults */
static int hx_faults(up a, int w) {
  if (sigsetjmp(hx_jb, 0)) return 1;
  hx_probing = 1;
  u8 c = 0;
  if (w) { volatile u8 *p = (volatile u8 *)a; *p = 0x5c; }
  else c = *(volatile u8 *)a;
  (void)c;
  hx_probing = 0;
  return 0;
}

/* ---------------- shared results ---------------- */
#define MAXV 64
struct Viol { char what[400]; char ops[600]; char tag[24]; };
#define HTAB (1u << 21)
struct Shared {
  volatile u64 transitions, histories, deaths, probes, mapchecks, states, execs, points, aux[16];
  volatile u64 nviol, nother;
  struct Viol v[MAXV];
  volatile u8 phase[64];
  volatile u64 cnt[256]; volatile u64 wcnt;
  volatile u64 sampled; char sample[8][500];
  volatile u64 outcomes;
  u64 htab[HTAB];
};
static struct Shared *sh;
static void hx_add(volatile u64 *p, u64 n) { __atomic_fetch_add(p, n, __ATOMIC_SEQ_CST); }
static u64 hx_mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
static int hx_seen(u64 h) { /* insert; 1 if new */
  if (!h) h = 1;
  u64 i = h & (HTAB - 1);
  for (u64 k = 0; k < HTAB; ++k, i = (i + 1) & (HTAB - 1)) {
    u64 z = __atomic_load_n(&sh->htab[i], __ATOMIC_SEQ_CST);
    if (z == h) return 0;
    if (!z) { u64 e = 0; if (__atomic_compare_exchange_n(&sh->htab[i], &e, h, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) { hx_add(&sh->states, 1); return 1; } if (e == h) return 0; }
  }
  return 0;
}
static void hx_json(int fd, const char *s) {
  static char b[8192]; size_t n = 0; b[n++] = '"';
  for (; *s && n < sizeof b - 10; ++s) {
    u8 c = (u8)*s;
    if (c == '"' || c == '\\') { b[n++] = '\\'; b[n++] = c; }
    else if (c == '\n') { b[n++] = '\\'; b[n++] = 'n'; }
    else if (c < 32 || c > 126) b[n++] = '?';
    else b[n++] = c;
  }
  b[n++] = '"'; b[n] = 0; hx_write(fd, b);
}
static void hx_report(int fd) {
  char t[600];
  snprintf(t, sizeof t, "{\"transitions\":%lu,\"histories\":%lu,\"deaths\":%lu,\"probes\":%lu,\"mapchecks\":%lu,\"states\":%lu,\"execs\":%lu,\"points\":%lu,\"nviol\":%lu,\"outcomes\":%lu,\"aux\":[",
           (unsigned long)sh->transitions, (unsigned long)sh->histories, (unsigned long)sh->deaths, (unsigned long)sh->probes, (unsigned long)sh->mapchecks, (unsigned long)sh->states, (unsigned long)sh->execs, (unsigned long)sh->points, (unsigned long)sh->nviol, (unsigned long)sh->outcomes);
  hx_write(fd, t);
  for (int i = 0; i < 16; ++i) { snprintf(t, sizeof t, "%s%lu", i ? "," : "", (unsigned long)sh->aux[i]); hx_write(fd, t); }
  hx_write(fd, "],\"violations\":[");
  u64 n = sh->nviol < MAXV ? sh->nviol : MAXV;
  for (u64 i = 0; i < n; ++i) {
    hx_write(fd, i ? ",{\"tag\":" : "{\"tag\":"); hx_json(fd, sh->v[i].tag);
    hx_write(fd, ",\"what\":"); hx_json(fd, sh->v[i].what);
    hx_write(fd, ",\"ops\":"); hx_json(fd, sh->v[i].ops); hx_write(fd, "}");
  }
  hx_write(fd, "],\"samples\":[");
  n = sh->sampled < 8 ? sh->sampled : 8;
  for (u64 i = 0; i < n; ++i) { if (i) hx_write(fd, ","); hx_json(fd, sh->sample[i]); }
  hx_write(fd, "]}\n");
}
static void hx_dump_states(const char *path) {
  int fd = (int)hx_sys3(SYS_open, (long)path, O_CREAT | O_TRUNC | O_WRONLY, 0600);
  if (fd < 0) return;
  static u64 buf[4096]; size_t n = 0;
  for (u64 i = 0; i < HTAB; ++i) if (sh->htab[i]) { buf[n++] = sh->htab[i]; if (n == 4096) { hx_sys3(SYS_write, fd, (long)buf, sizeof buf); n = 0; } }
  if (n) hx_sys3(SYS_write, fd, (long)buf, (long)(n * 8));
  hx_sys3(SYS_close, fd, 0, 0);
}
static long hx_memfd(void) { return hx_sys3(SYS_memfd_create, (long)"hx", 0, 0); }
static char hx_cap[65536];
static const char *hx_readcap(int fd) {
  long r = hx_sys6(SYS_pread64, fd, (long)hx_cap, sizeof hx_cap - 1, 0, 0, 0);
  hx_cap[r > 0 ? r : 0] = 0;
  return hx_cap;
}
static void hx_clear(int fd) { hx_sys3(SYS_ftruncate, fd, 0, 0); hx_sys3(SYS_lseek, fd, 0, 0); }
#endif
