/* seq: exhaustive exploration of operation histories on the real library.
 *
 *   seq explore depth=N [shard=i nshards=n] [faults=mpu] [fdepth=k] [timeout=s] [states=FILE] prefix=OPS -- OP OP OP ...
 *   seq replay OPS            (';'-separated)
 *
 * Every edge of the tree is one call of the real library in a forked process; the reference model below
 * predicts the outcome, and after every call the kernel's page table, the contents of all live blocks and
 * the result of the call are compared with it. */
#include "hx.h"
#include "api.h"
#include "api_mem.h"
#include "duma_config.h"

#ifdef DUMA_NO_LEAKDETECTION
#define SRC(x) 0
#else
#define SRC(x) (x)
#endif
/* ------------------------------------------------------------------ system-call seam */
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
int __real_mprotect(void *, size_t, int);
static struct { int type, k, persist, fired, on; } flt; /* type 0 mmap 1 mprotect 2 munmap 3 write */
static int ncall[4], anyfault, forgot;
static int flt_hit(int type) {
  int k = ++ncall[type];
  if (!flt.on || flt.type != type) return 0;
  if (type != 3 && (k == flt.k || (flt.persist && k >= flt.k))) anyfault = 1;
  if (type == 3) { if (k == flt.k) flt.fired++; return k == flt.k; }
  if (k == flt.k || (flt.persist && k >= flt.k)) { flt.fired++; errno = ENOMEM; return 1; }
  return 0;
}
#if defined(HX_DYN) /* the library is a shared object: the program's own definitions of the calls come first */
void *mmap(void *a, size_t n, int p, int f, int fd, off_t o) { if (flt_hit(0)) return MAP_FAILED; long r = hx_sys6(SYS_mmap, (long)a, (long)n, p, f, fd, o); if (r < 0 && r > -4096) { errno = (int)-r; return MAP_FAILED; } return (void *)r; }
int munmap(void *a, size_t n) { if (flt_hit(2)) return -1; long r = hx_sys3(SYS_munmap, (long)a, (long)n, 0); if (r < 0) { errno = (int)-r; return -1; } return 0; }
int __real_mprotect(void *a, size_t n, int p) { long r = hx_sys3(SYS_mprotect, (long)a, (long)n, p); if (r < 0) { errno = (int)-r; return -1; } return 0; }
int mprotect(void *a, size_t n, int p) { if (flt_hit(1)) return -1; return __real_mprotect(a, n, p); }
#elif !defined(CONC)
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) { if (flt_hit(0)) return MAP_FAILED; return __real_mmap(a, n, p, f, fd, o); }
void *__real_mmap64(void *, size_t, int, int, int, off_t);
void *__wrap_mmap64(void *a, size_t n, int p, int f, int fd, off_t o) { if (flt_hit(0)) return MAP_FAILED; return __real_mmap(a, n, p, f, fd, o); }
ssize_t __real_write(int, const void *, size_t);
/* EINTR, or only a part is taken */
ssize_t __wrap_write(int fd, const void *b, size_t n) { int hit = flt_hit(3); sh->wcnt = (u64)ncall[3]; if (hit) { if (!flt.persist) { errno = EINTR; return -1; } if (n > 1) return __real_write(fd, b, n / 2); } return __real_write(fd, b, n); }
int __wrap_munmap(void *a, size_t n) { if (flt_hit(2)) return -1; return __real_munmap(a, n); }
int __wrap_mprotect(void *a, size_t n, int p) { if (flt_hit(1)) return -1; return __real_mprotect(a, n, p); }
#endif

/* ------------------------------------------------------------------ configuration as the model sees it */
static struct { long align, below, fill, slack, pfree, maxalloc, mal0, new0, failexit, freq, all, show, access, overlap; } cf;
static long envn(char **envp, const char *name, long d) {
  size_t l = hx_len(name);
  for (; *envp; ++envp) if (hx_pre(*envp, name) && (*envp)[l] == '=') return hx_num(*envp + l + 1);
  return d;
}
static void read_cf(char **envp) {
  cf.align = envn(envp, "DUMA_ALIGNMENT", DUMA_MIN_ALIGNMENT); if (!cf.align) cf.align = 1;
  cf.below = envn(envp, "DUMA_PROTECT_BELOW", 0) != 0;
  cf.fill = envn(envp, "DUMA_FILL", 255); if (cf.fill != -1) cf.fill &= 255;
  cf.slack = envn(envp, "DUMA_SLACKFILL", 0xaa) & 255;
  cf.pfree = envn(envp, "DUMA_PROTECT_FREE", -1);
  cf.maxalloc = envn(envp, "DUMA_MAX_ALLOC", -1);
  cf.mal0 = envn(envp, "DUMA_MALLOC_0_STRATEGY", 3);
  cf.new0 = envn(envp, "DUMA_NEW_0_STRATEGY", 3);
  cf.failexit = envn(envp, "DUMA_MALLOC_FAILEXIT", 1) != 0;
  cf.freq = envn(envp, "DUMA_CHECK_FREQ", 0);
  cf.all = envn(envp, "DUMA_REPORT_ALL_LEAKS", 0) != 0;
  cf.show = envn(envp, "DUMA_SHOW_ALLOC", 0) != 0;
  cf.access = envn(envp, "DUMA_FREE_ACCESS", 0) != 0;
  cf.overlap = envn(envp, "DUMA_MEMCPY_OVERLAP", 0) != 0;
}

/* ------------------------------------------------------------------ model */
struct Blk {
  up p; size_t n, al; int fam, src, below, zero, live, corrupt, gone; const char *kind, *file; int line; u8 pat; long age; size_t foot;
};
#define MAXB 8192
static struct Blk B[MAXB]; static int nB;
static int L[MAXB], nL;  /* live, oldest first */
static int D[MAXB], nD;  /* released, oldest first */
static long m_allocs, m_frees, m_noblk; /* successful operations the counters must show */
static up fixed0;            /* the fixed zero-size address, once seen */
static long rep_base_n, rep_base_extra; /* foreign blocks in the leak report at start */
static long cnt_base_a, cnt_base_d; static int have_cnt;

static char curops[600];
static int early; /* explored before the library's constructor ran */
static void fail_(const char *tag, const char *what) {
  u64 i = __atomic_fetch_add(&sh->nviol, 1, __ATOMIC_SEQ_CST);
  if (i < MAXV) { hx_cpy(sh->v[i].what, what, sizeof sh->v[i].what); hx_cpy(sh->v[i].ops, curops, sizeof sh->v[i].ops); hx_cpy(sh->v[i].tag, tag, sizeof sh->v[i].tag); }
}
static char fbuf[500];
#define FAIL(tag, ...) do { snprintf(fbuf, sizeof fbuf, __VA_ARGS__); fail_(tag, fbuf); } while (0)

static u8 patbyte(const struct Blk *b, size_t i) { return (u8)(b->pat + i * 7 + (i >> 8) * 3); }
static struct Blk *nth_live(int w) { if (w == -1) return nL ? &B[L[0]] : 0; return w < nL ? &B[L[nL - 1 - w]] : 0; }
static struct Blk *nth_dead(int w) { return w < nD ? &B[D[nD - 1 - w]] : 0; }
static void kill_blk(struct Blk *b) {
  int id = (int)(b - B), j = 0;
  for (int i = 0; i < nL; ++i) if (L[i] != id) L[j++] = L[i];
  nL = j; b->live = 0; D[nD++] = id;
}
static size_t eff_align(const struct AllocApi *a, size_t n, size_t al) {
  if (a->aligned == 2) return 4096;
  if (a->aligned == 1 && al) return al;
  size_t d = (size_t)cf.align;
  if (n < d) { d = 1; while (d * 2 <= n) d *= 2; }
  return d ? d : 1;
}
/* accessible extent the model allows for a live block, in pages */
static void extent(const struct Blk *b, up *lo, up *hi) {
  if (b->zero) { *lo = *hi = b->p; return; }
  *lo = pgdn(b->p); *hi = pgup(b->p + b->n);
}
static void slack_extent(const struct Blk *b, up *lo, up *hi) {
  extent(b, lo, hi);
  if (b->zero) return;
  if (b->al > PG) { if (b->below) *hi += b->al - PG; else *lo -= b->al - PG; }
}
static int always_report;
static int capfd[64]; /* captured stderr per depth; [63]: leak report */

/* ------------------------------------------------------------------ oracles after each call */
static int cmpL(int a, int b) { return B[a].p < B[b].p; }
extern char *DUMA_OUTPUT_FILE; /* public: the program may read and set it */
static void check_pages(const char *when) {
  static int S[MAXB]; int n = 0, hit = 0;
  hx_add(&sh->mapchecks, 1);
  hx_snapshot_cur();
  for (int i = 0; i < nL; ++i) { int j = n++; S[j] = L[i]; for (; j > 0 && cmpL(S[j], S[j - 1]); --j) { int t = S[j]; S[j] = S[j - 1]; S[j - 1] = t; } }
  for (int i = 0; i < n; ++i) {
    up lo, hi; extent(&B[S[i]], &lo, &hi);
    if (B[S[i]].zero) { if (hx_any_acc(pgdn(B[S[i]].p), pgdn(B[S[i]].p) + PG)) { FAIL("pages", "%s: page of zero-size block %#lx is accessible", when, B[S[i]].p); ++hit; } continue; }
    if (!hx_all_rw(lo, hi)) { FAIL("inacc", "%s: live block %#lx size %lu is not fully accessible", when, B[S[i]].p, B[S[i]].n); ++hit; }
    if (!B[S[i]].below && hx_any_acc(hi, hi + PG)) { FAIL("over", "%s: page after block %#lx size %lu align %lu is accessible", when, B[S[i]].p, B[S[i]].n, B[S[i]].al); ++hit; }
    if (B[S[i]].below && hx_any_acc(lo - PG, lo)) { FAIL("under", "%s: page before block %#lx size %lu align %lu is accessible", when, B[S[i]].p, B[S[i]].n, B[S[i]].al); ++hit; }
  }
  if (hit) return;
  /* everything accessible must belong to a live block */
  for (int i = 0; i < hx_ncur; ++i) {
    up a = hx_cur[i].lo, e = hx_cur[i].hi;
    while (a < e) {
      int ok = 0;
      for (int j = 0; j < n; ++j) {
        up lo, hi; slack_extent(&B[S[j]], &lo, &hi);
        if (!B[S[j]].zero && lo <= a && a < hi) { a = hi < e ? hi : e; ok = 1; break; }
      }
      if (!ok && DUMA_OUTPUT_FILE && a == pgdn((up)DUMA_OUTPUT_FILE)) { a += PG; ok = 1; }
      if (!ok) {
        const char *what = "allocator memory";
        for (int j = 0; j < nD; ++j) { up lo, hi; extent(&B[D[j]], &lo, &hi); if (lo <= a && a < hi) what = "a released block"; }
        FAIL(what[0] == 'a' && what[2] == 'r' ? "freed" : "book", "%s: page %#lx is accessible but belongs to no live block (%s)", when, a, what);
        return;
      }
    }
  }
}
/* blocks too big to look at every byte: the first and last 8192 bytes and one byte per 16 MB */
static size_t nx_big = (size_t)1 << 27; static int nx_shift = 24;
static size_t nx(size_t k, size_t n) {
  if (n <= nx_big || k < 8191) return k + 1;
  size_t j = ((k >> nx_shift) + 1) << nx_shift;
  if (j < n - 8192) return j;
  return k < n - 8192 ? n - 8192 : k + 1;
}
static void check_contents(const char *when) {
  for (int i = 0; i < nL; ++i) {
    struct Blk *b = &B[L[i]];
    if (b->zero) continue;
    volatile u8 *q = (volatile u8 *)b->p;
    size_t step = b->n > 65536 ? 509 : 1;
    for (size_t k = 0; k < b->n; k = b->n > nx_big ? nx(k, b->n) : k + step) if (q[k] != patbyte(b, k)) { FAIL("data", "%s: block %#lx size %lu lost its contents at offset %lu (%02x, expected %02x)", when, b->p, b->n, k, q[k], patbyte(b, k)); return; }
  }
}
static void fill_pat(struct Blk *b) { volatile u8 *q = (volatile u8 *)b->p; if (b->zero) return; for (size_t k = 0; k < b->n; k = nx(k, b->n)) q[k] = patbyte(b, k); }
static void probe(struct Blk *b) {
  if (b->zero) { hx_add(&sh->probes, 2); if (!hx_faults(b->p, 0) || !hx_faults(b->p, 1)) FAIL("pages", "zero-size block %#lx is accessible", b->p); return; }
  hx_add(&sh->probes, 2);
  if (!b->below) { up g = pgup(b->p + b->n); if (!hx_faults(g, 0) || !hx_faults(g, 1)) FAIL("over", "access to first guard byte %#lx of block %#lx size %lu does not fault", g, b->p, b->n); }
  else { if (!hx_faults(b->p - 1, 0) || !hx_faults(b->p - 1, 1)) FAIL("under", "access to the byte before block %#lx size %lu does not fault", b->p, b->n); }
}
static u64 state_hash(void) {
  u64 h = 7;
  for (int i = 0; i < nL; ++i) { struct Blk *b = &B[L[i]]; h = hx_mix(h, b->n); h = hx_mix(h, b->al * 64 + b->fam * 8 + b->below * 4 + b->zero); h = hx_mix(h, b->corrupt); h = hx_mix(h, (u64)(b->src ? b->line : 0)); }
  h = hx_mix(h, 0x1234); h = hx_mix(h, nD < 12 ? nD : 12);
  for (int i = nD > 4 ? nD - 4 : 0; i < nD; ++i) h = hx_mix(h, B[D[i]].n * 2 + B[D[i]].gone);
  h = hx_mix(h, cf.align * 1000 + cf.below); h = hx_mix(h, cf.fill + 1);
  return h;
}

/* protected-memory budget (PROTECT_FREE=N): measured on the kernel's map */
static size_t foot_pages(struct Blk *b, int mappedonly) {
  up lo, hi; extent(b, &lo, &hi);
  if (b->zero) { lo = pgdn(b->p); hi = lo + PG; }
  else if (b->below) lo -= PG; else hi += PG;
  size_t n = 0;
  if (!mappedonly && b->al > PG) n += b->al / PG - 1;
  for (up a = lo; a < hi; a += PG) if (!mappedonly || hx_is_none(a)) ++n;
  return n;
}
static void check_budget(struct Blk *justfreed, const char *when) {
  if (cf.pfree < 0) { /* no limit, but for the one on all memory: what was released stays protected */
    size_t sum = 0; int from = nD > 64 ? nD - 64 : 0;
    if (anyfault || (forgot && cf.maxalloc > 0)) return;
    if (cf.maxalloc > 0) { for (int i = 0; i < nL; ++i) sum += foot_pages(&B[L[i]], 0); for (int i = 0; i < nD; ++i) sum += foot_pages(&B[D[i]], 0); if (sum * 4 + 600 > (size_t)cf.maxalloc) return; }
    for (int i = from; i < nD; ++i) { struct Blk *b = &B[D[i]]; if (!b->zero && !b->gone && !foot_pages(b, 1)) { b->gone = 1; FAIL("budget", "%s: released block %#lx size %lu is no longer kept protected", when, b->p, b->n); } }
    return;
  }
  if (cf.pfree == 0) return;
  size_t tot = 0; /* pages */
  size_t mine = 0, full = 0;
  for (int i = 0; i < nD; ++i) {
    struct Blk *b = &B[D[i]];
    if (b->gone) continue;
    size_t m = foot_pages(b, 1);
    if (b == justfreed) { mine = m; full = foot_pages(b, 0); }
    if (!m) b->gone = 1;
    tot += m;
  }
  if (tot * 4 > (size_t)cf.pfree) FAIL("budget", "%s: %lu kB of released memory are kept protected, limit is %ld kB", when, tot * 4, cf.pfree);
  if (forgot) { tot = 0; for (int i = 0; i < hx_nnone; ++i) tot += (hx_none[i].hi - hx_none[i].lo) / PG; } /* what earlier repetitions released is part of it */
  if (justfreed && !mine && (tot + full) * 4 + 8 <= (size_t)cf.pfree) /* DUMA's own test allocation may use 8 kB */ FAIL("budget", "%s: released block of %lu kB is not kept protected although only %lu of %ld kB are in use", when, full * 4, tot * 4, cf.pfree);
  (void)full;
}
static size_t footprint(void) { /* bytes of address space that are not baseline */
  size_t n = 0;
  hx_snapshot_cur();
  for (int i = 0; i < hx_ncur; ++i) n += hx_cur[i].hi - hx_cur[i].lo;
  for (int i = 0; i < hx_nnone; ++i) n += hx_none[i].hi - hx_none[i].lo;
  return n;
}

/* ------------------------------------------------------------------ operations */
struct Op {
  char text[72]; char k; const struct AllocApi *a; const struct FreeApi *f; long n, al; int which; char mode[16], cls[16]; int ftype, fk, fpersist;
};
static const struct AllocApi *find_a(const char *s) {
  for (int i = 0; i < api_c_nalloc; ++i) if (hx_eq(api_c_alloc[i].name, s)) return &api_c_alloc[i];
  for (int i = 0; i < api_p_nalloc; ++i) if (hx_eq(api_p_alloc[i].name, s)) return &api_p_alloc[i];
#ifdef WITH_CPP
  for (int i = 0; i < api_x_nalloc; ++i) if (hx_eq(api_x_alloc[i].name, s)) return &api_x_alloc[i];
#endif
  return 0;
}
static const struct FreeApi *find_f(const char *s) {
  for (int i = 0; i < api_c_nfree; ++i) if (hx_eq(api_c_free[i].name, s)) return &api_c_free[i];
  for (int i = 0; i < api_p_nfree; ++i) if (hx_eq(api_p_free[i].name, s)) return &api_p_free[i];
#ifdef WITH_CPP
  for (int i = 0; i < api_x_nfree; ++i) if (hx_eq(api_x_free[i].name, s)) return &api_x_free[i];
#endif
  return 0;
}
static const struct FreeApi *auto_f(int fam) {
  if (fam == FAM_C) return &api_c_free[0];
#ifdef WITH_CPP
  for (int i = 0; i < api_x_nfree; ++i) if (api_x_free[i].fam == fam) return &api_x_free[i];
#endif
  return 0;
}
static int whichof(const char *s) { return s[0] == 'o' ? -1 : (int)hx_num(s); }
static void parse_op(const char *t, struct Op *o) {
  char f[6][24]; int nf = 0; const char *s = t;
  for (size_t i = 0; i < sizeof *o; ++i) ((volatile char *)o)[i] = 0;
  hx_cpy(o->text, t, sizeof o->text);
  char core[72]; size_t c = 0;
  for (; *s && *s != '@' && c < 71; ++s) core[c++] = *s;
  core[c] = 0;
  if (*s == '@') {
    o->ftype = s[1] == 'm' ? 1 : s[1] == 'p' ? 2 : s[1] == 'w' ? 4 : 3; o->fk = 0;
    for (s += 2; *s >= '0' && *s <= '9'; ++s) o->fk = o->fk * 10 + (*s - '0');
    o->fpersist = *s == '+';
  }
  s = core;
  for (;;) {
    size_t i = 0; while (*s && *s != ':' && i < 23) f[nf][i++] = *s++;
    f[nf][i] = 0; ++nf;
    if (!*s || nf == 6) break;
    ++s;
  }
  o->k = f[0][0];
  switch (o->k) {
  case 'A': o->a = find_a(f[1]); if (!o->a) hx_fatal(t); o->n = nf > 2 ? hx_num(f[2]) : 0; o->al = nf > 3 ? hx_num(f[3]) : 0; if (hx_eq(o->a->name, "macnew16")) o->n = 16; break;
  case 'F': if (!hx_eq(f[1], "auto")) { o->f = find_f(f[1]); if (!o->f) hx_fatal(t); } o->which = whichof(f[2]); break;
  case 'R': hx_cpy(o->mode, f[1], 16); o->which = whichof(f[2]); o->n = hx_num(f[3]); break;
  case 'U': hx_cpy(o->mode, f[1], 16); o->which = whichof(f[2]); break;
  case 'K': if (hx_eq(f[1], "all")) o->which = -2; else o->which = whichof(f[1]); break;
  case 'L': break;
  case 'Z': break;
  case 'V': o->which = whichof(f[1]); break; /* release while the program watches its block for writes */
  case 'M': hx_cpy(o->mode, f[1], 16); hx_cpy(o->cls, f[2], 16); o->n = nf > 3 ? hx_num(f[3]) : 5; break; /* copy functions: M:m|p:fn:dist */
  case 'S': hx_cpy(o->mode, f[1], 16); o->n = hx_num(f[2]); break;
  case 'W': o->which = whichof(f[1]); hx_cpy(o->cls, f[2], 16); o->n = nf > 3 ? hx_num(f[3]) : 1; break;
  case 'E': hx_cpy(o->mode, f[1], 16); if (!hx_eq(f[1], "m_realloc") && !hx_eq(f[1], "p_realloc") && !hx_eq(f[1], "m_usable") && !hx_eq(f[1], "p_usable") && !hx_eq(f[1], "check")) { o->f = find_f(f[1]); if (!o->f) hx_fatal(t); }
    hx_cpy(o->cls, f[2], 16); o->which = nf > 3 ? whichof(f[3]) : 0; break;
  case 'G': case 'O': case 'P': o->n = hx_num(f[1]); o->al = nf > 2 ? hx_num(f[2]) : 24; break;
  case 'Q': hx_cpy(o->mode, f[1], 16); o->n = hx_num(f[2]); break; /* fixed0 ops: Q:free / Q:realloc:n / Q:usable / Q:check */
  case 'C': o->n = hx_num(f[1]); break; /* cycle marker, see cycles() */
  default: hx_fatal(t);
  }
}
static u8 stackvar[64];
static u8 *foreign;
static up bad_addr(struct Op *o, int *ok) {
  struct Blk *b; *ok = 1;
  if (hx_eq(o->cls, "freed")) { b = nth_dead(o->which); if (!b) { *ok = 0; return 0; } for (int i = 0; i < nL; ++i) if (B[L[i]].p == b->p) { *ok = 0; return 0; } return b->p; }
  if (hx_eq(o->cls, "freedint")) { b = nth_dead(o->which); if (!b || b->n < 2) { *ok = 0; return 0; } for (int i = 0; i < nL; ++i) if (B[L[i]].p == b->p + 1) { *ok = 0; return 0; } return b->p + 1; }
  if (hx_eq(o->cls, "stack")) return (up)__builtin_frame_address(0);
  if (hx_eq(o->cls, "static")) return (up)stackvar;
  if (hx_eq(o->cls, "foreign")) return (up)foreign;
  if (hx_eq(o->cls, "one")) return 1;
  if (hx_eq(o->cls, "top")) return ~(up)0;
  if (hx_pre(o->cls, "fix")) { /* beside the fixed address of blocks of size zero */
    if (!fixed0) { *ok = 0; return 0; }
    up x = hx_eq(o->cls, "fix+1") ? fixed0 + 1 : hx_eq(o->cls, "fix-1") ? fixed0 - 1 : hx_eq(o->cls, "fix+pg") ? fixed0 + PG : hx_eq(o->cls, "fix-pg") ? fixed0 - PG : fixed0 ^ ((up)1 << 32);
    for (int i = 0; i < nL; ++i) if (B[L[i]].p == x) { *ok = 0; return 0; }
    return x;
  }
  b = nth_live(o->which);
  if (!b) { *ok = 0; return 0; }
  up a = 0;
  if (hx_eq(o->cls, "int1")) a = b->p + 1;
  else if (hx_eq(o->cls, "mid")) a = b->p + b->n / 2;
  else if (hx_eq(o->cls, "last")) a = b->p + b->n - 1;
  else if (hx_eq(o->cls, "end")) a = b->p + b->n;
  else if (hx_eq(o->cls, "m1")) a = b->p - 1;
  else if (hx_eq(o->cls, "m8")) a = b->p - 8;
  else if (hx_eq(o->cls, "page")) a = pgdn(b->p);
  else if (hx_eq(o->cls, "page2")) a = pgdn(b->p) - PG;
  else if (hx_eq(o->cls, "guard")) a = b->below ? b->p - PG : pgup(b->p + b->n);
  else if (hx_eq(o->cls, "next")) a = pgup(b->p + b->n) + PG;
  else if (hx_eq(o->cls, "b32")) a = b->p ^ ((up)1 << 32);
  else if (hx_eq(o->cls, "b40")) a = b->p ^ ((up)1 << 40);
  else if (hx_eq(o->cls, "b63")) a = b->p ^ ((up)1 << 63);
  else if (hx_eq(o->cls, "low")) a = (unsigned)b->p;
  else if (hx_eq(o->cls, "int8")) a = b->p + 8;
  else if (hx_eq(o->cls, "int16")) a = b->p + 16;
  else if (hx_eq(o->cls, "intpg")) a = b->p + PG;
  else if (hx_pre(o->cls, "pg+")) a = pgdn(b->p) + (up)hx_num(o->cls + 3) * PG;
  else if (hx_pre(o->cls, "pg-")) a = pgdn(b->p) - (up)hx_num(o->cls + 3) * PG;
  else hx_fatal(o->cls);
  if (fixed0 && a == fixed0) { *ok = 0; return 0; } /* the fixed address of blocks of size zero may be released */
  for (int i = 0; i < nL; ++i) if (B[L[i]].p == a) { *ok = 0; return 0; }
  return a;
}
static up slack_addr(struct Blk *b, const char *cls, int *ok) {
  up lo = pgdn(b->p), hi = pgup(b->p + b->n), a; *ok = 1;
  if (b->zero) { *ok = 0; return 0; }
  up ulo = b->p, uhi = b->p + b->n;
  switch (cls[0]) {
  case 'b': a = ulo - 1 - (up)hx_num(cls + 1); if (a < lo || a >= ulo) *ok = 0; return a;
  case 'B': a = lo + (up)hx_num(cls + 1); if (a < lo || a >= ulo) *ok = 0; return a;
  case 'a': a = uhi + (up)hx_num(cls + 1); if (a >= hi) *ok = 0; return a;
  case 'A': a = hi - 1 - (up)hx_num(cls + 1); if (a < uhi) *ok = 0; return a;
  }
  hx_fatal(cls); return 0;
}
static int slackbit(const char *cls) { unsigned h = (unsigned)(cls[0] == 'b' ? 0 : cls[0] == 'B' ? 1 : cls[0] == 'a' ? 2 : 3) * 7 + (unsigned)(hx_num(cls + 1) % 7); return (int)(h % 30); }

/* prediction */
struct Exp { int must, may; /* die */ char why[120]; struct Blk *named; const char *tok[3]; int anydeath; int maynull; };
static int any_corrupt(void) { for (int i = 0; i < nL; ++i) if (B[L[i]].corrupt) return 1; return 0; }
static long oldest_age(void) { long m = -1; for (int i = 0; i < nL; ++i) if (B[L[i]].corrupt && (m < 0 || B[L[i]].age > m)) m = B[L[i]].age; return m; }
static int is_pow2(size_t a) { return a && !(a & (a - 1)); }
static int enabled(struct Op *o) {
  int ok; struct Blk *b;
  switch (o->k) {
  case 'F': b = nth_live(o->which); if (!b) return 0; if (o->which > 0 && nL == 1) return 0; return 1;
  case 'R': b = nth_live(o->which); return b && 1;
  case 'U': case 'K': if (o->which == -2) return 1; return nth_live(o->which) != 0;
  case 'W': b = nth_live(o->which); if (!b) return 0; slack_addr(b, o->cls, &ok); return ok;
  case 'E': bad_addr(o, &ok); return ok;
  case 'V': b = nth_live(o->which); return b && b->n && b->fam == FAM_C && !b->corrupt;
  case 'Q': return fixed0 != 0 || hx_pre(o->mode, "null");
  case 'A': return nL < MAXB / 2;
  }
  return 1;
}
static void periodic(struct Exp *e, int calls) {
  if (cf.freq > 0 && any_corrupt()) { if (oldest_age() + calls >= cf.freq) e->must = 1; else e->may = 1; }
}
static void predict(struct Op *o, struct Exp *e) {
  struct Blk *b;
  for (size_t i = 0; i < sizeof *e; ++i) ((volatile char *)e)[i] = 0;
  switch (o->k) {
  case 'A': {
    size_t n = (size_t)o->n;
    if (o->a->aligned == 1 && hx_find(o->a->name, "posix") && (!is_pow2((size_t)o->al) || o->al < 8)) { e->maynull = 1; return; }
    if (n == 0) {
      long st = o->a->cpp_zero ? cf.new0 : cf.mal0;
      if (hx_find(o->a->name, "strdup")) { n = 1; }
      else if (st == 0) { e->must = 1; hx_cpy(e->why, "zero size request must abort", sizeof e->why); e->tok[0] = "DUMA Abort"; return; }
      else if (st != 3) return;
    }
    if (n && o->a->aligned == 1 && o->al && !is_pow2((size_t)o->al)) { e->must = 1; hx_cpy(e->why, "alignment is not a power of two: must abort", sizeof e->why); e->tok[0] = "DUMA Abort"; return; }
    periodic(e, 1);
    if (e->must || e->may) { hx_cpy(e->why, "periodic check must report the damaged padding", sizeof e->why); }
    break; }
  case 'F': {
    b = nth_live(o->which);
    int fam = o->f ? o->f->fam : b->fam;
    if (fam != b->fam) { e->must = 1; hx_cpy(e->why, "release through the wrong family must abort", sizeof e->why); e->tok[0] = "DUMA Abort"; e->tok[1] = b->kind; e->tok[2] = o->f->kind; if (any_corrupt()) { e->tok[1] = e->tok[2] = 0; } return; }
    if (b->corrupt) { e->must = 1; e->named = b; hx_cpy(e->why, "release of a block with damaged padding must abort", sizeof e->why); if (cf.freq > 0) e->named = 0; return; }
    periodic(e, 1);
    if (e->must || e->may) hx_cpy(e->why, "periodic check must report the damaged padding", sizeof e->why);
    break; }
  case 'R':
    b = nth_live(o->which);
    if (b->fam != FAM_C) { e->must = 1; hx_cpy(e->why, "realloc of a block from new must abort", sizeof e->why); e->tok[0] = "DUMA Abort"; if (!any_corrupt()) e->tok[1] = b->kind; return; }
    if (b->corrupt) { e->must = 1; hx_cpy(e->why, "realloc of a block with damaged padding must abort", sizeof e->why); e->named = cf.freq > 0 ? 0 : b; return; }
    periodic(e, 2);
    if (e->must || e->may) hx_cpy(e->why, "periodic check must report the damaged padding", sizeof e->why);
    break;
  case 'K':
    if (o->which == -2) { if (any_corrupt()) { e->must = 1; hx_cpy(e->why, "check of all blocks must report the damaged padding", sizeof e->why); } }
    else { b = nth_live(o->which); if (b->corrupt) { e->must = 1; e->named = b; hx_cpy(e->why, "check of the block must report the damaged padding", sizeof e->why); } }
    break;
  case 'P': periodic(e, (int)(2 * o->n)); if (e->must || e->may) hx_cpy(e->why, "periodic check must report the damaged padding", sizeof e->why); break;
  case 'V': if (cf.access) { e->must = 1; e->anydeath = 1; hx_cpy(e->why, "release must write to the block (DUMA_FREE_ACCESS)", sizeof e->why); } else { periodic(e, 1); } break;
  case 'M': { long dist = o->n < 0 ? -o->n : o->n; int over = dist < 8 && dist > 0;
    if (over && hx_eq(o->cls, "memcpy") && !(o->n < 0 && cf.overlap)) { e->must = 1; e->tok[0] = "DUMA Abort"; hx_cpy(e->why, "overlapping memcpy must be refused", sizeof e->why); } break; }
  case 'E': {
    int ok; (void)bad_addr(o, &ok);
    e->must = 1; e->anydeath = hx_eq(o->mode, "m_realloc") || hx_eq(o->mode, "p_realloc") || hx_find(o->mode, "realloc_free") || hx_pre(o->cls, "pg"); /* a page of DUMA's own table may be among them */
    hx_cpy(e->why, "address is not the start of a live block: must be refused", sizeof e->why);
    if (!e->anydeath) e->tok[0] = "DUMA Abort";
    break; }
  }
}
static int diag_names(const char *txt, struct Blk *b) {
  char t[64];
  snprintf(t, sizeof t, "%lx", (unsigned long)b->p);
  if (!hx_find(txt, t)) return 0;
#ifdef DUMA_NO_LEAKDETECTION /* size and place belong to the feature that was left out */
  return 1;
#endif
  snprintf(t, sizeof t, "%lu", (unsigned long)b->n);
  if (!hx_find(txt, t)) return 0;
  if (b->src) { if (!hx_find(txt, b->file)) return 0; snprintf(t, sizeof t, "%d", b->line); if (!hx_find(txt, t)) return 0; }
  return 1;
}
static char strsrc[1 << 22];

/* ------------------------------------------------------------------ outputs
 * sinks=1: every output DUMA may write to is captured: stdout, stderr, the file (always /proc/self/fd/900).
 * Every enabled one must get exactly the same, complete text, every other one nothing. */
static int snk, ko, ke, kf, capo[64], capq[64], in_report;
static const char *banner_s = ""; static int banner_seen;
#define SINKF 900
static char snkt[3][65536];
static const char *snk_text(int d) {
  int fds[3] = {capo[d], capfd[d], capq[d]}, on[3] = {ko, ke, kf}, first = -1; static const char *const nm[] = {"stdout", "stderr", "the file"};
  for (int i = 0; i < 3; ++i) {
    long r = hx_sys6(SYS_pread64, fds[i], (long)snkt[i], sizeof snkt[i] - 1, 0, 0, 0); snkt[i][r > 0 ? r : 0] = 0;
    if (!on[i]) { if (snkt[i][0]) FAIL("sink", "message written to %s although that output is not enabled: %s", nm[i], snkt[i]); continue; }
    if (first < 0) { first = i; continue; }
    if (!hx_eq(snkt[i], snkt[first])) FAIL("sink", "%s got '%s' but %s got '%s'", nm[first], snkt[first], nm[i], snkt[i]);
  }
  return first < 0 ? "" : snkt[first];
}
static int snk_visible(void) { return ko || ke || kf; }
/* one record of the trace: what follows "\nDUMA: "; '*' in the expected text stands for anything */
static int wild(const char *e, const char *t) {
  for (; *e; ++e, ++t) {
    if (*e == '*') { for (;; ++t) { if (wild(e + 1, t)) return 1; if (!*t) return 0; } }
    if (*e != *t) return 0;
  }
  return !*t;
}
/* records DUMA writes about its own allocations name its own source file */
static void check_trace(const char *text, char exp[][400], int nexp, const char *opname) {
  static char t[65536]; hx_cpy(t, text, sizeof t);
  if (*banner_s) { const char *b = hx_find(t, banner_s); if (b) { if (banner_seen++) FAIL("sink", "the start-up message is written again: %s", opname); size_t o = (size_t)(b - t), l = hx_len(banner_s); for (size_t i = o; ; ++i) { t[i] = t[i + l]; if (!t[i]) break; } } }
  if (!*t) { if (nexp && snk_visible()) FAIL("sink", "%s: message missing, expected '%s'", opname, exp[0]); return; }
  if (!snk_visible()) return;
  char *q = t; int k = 0;
  if (!hx_pre(q, "\nDUMA: ")) { FAIL("sink", "%s: unexpected output: %s", opname, t); return; }
  while (*q) {
    q += 7; char *e = (char *)hx_find(q, "\nDUMA: "); char sv = 0; if (e) { sv = *e; *e = 0; }
    if (!hx_find(q, "duma.c(") || hx_find(q, "not freed")) {
      if (k >= nexp) { FAIL("sink", "%s: unexpected message '%s'", opname, q); return; }
      if (!wild(exp[k], q)) { FAIL("sink", "%s: message is '%s', expected '%s'", opname, q, exp[k]); return; }
      ++k;
    }
    if (!e) break;
    *e = sv; q = e;
  }
  if (k < nexp) FAIL("sink", "%s: message missing, expected '%s'", opname, exp[k]);
}
static void do_leak_report(void) {
#ifdef DUMA_NO_LEAKDETECTION
  return;
#endif
  int fd = capfd[63], sv = dup(2), sv1 = -1, sv9 = -1;
  hx_clear(fd);
  if (snk) { sv1 = dup(1); sv9 = dup(SINKF); hx_clear(capo[63]); hx_clear(capq[63]); dup2(capo[63], 1); dup2(capq[63], SINKF); }
  dup2(fd, 2);
  in_report = 1;
  api_report();
  in_report = 0;
  dup2(sv, 2); close(sv);
  static char txt[1 << 20];
  if (snk) {
    dup2(sv1, 1); close(sv1); dup2(sv9, SINKF); close(sv9);
    const char *z = snk_text(63); hx_cpy(txt, z, sizeof txt);
    if (!snk_visible()) return;
    const char *b = *banner_s ? hx_find(txt, banner_s) : 0; if (b && banner_seen++) FAIL("sink", "the start-up message is written again by the report");
  } else {
  long r = hx_sys6(SYS_pread64, fd, (long)txt, sizeof txt - 1, 0, 0, 0);
  txt[r > 0 ? r : 0] = 0;
  }
  long exp_rep = 0, exp_extra = 0;
  for (int i = 0; i < nL; ++i) {
    struct Blk *b = &B[L[i]];
    int rep = cf.all || b->src;
    if (rep) ++exp_rep; else ++exp_extra;
    char t[80]; int cnt = 0; const char *q = txt, *hit = 0;
    snprintf(t, sizeof t, "ptr=0x%lx ", (unsigned long)b->p);
    while ((q = hx_find(q, t))) { ++cnt; hit = q; ++q; }
    if (cnt != rep) { FAIL("leak", "leak report lists live block %#lx (%s, size %lu) %d times, expected %d", b->p, b->kind, b->n, cnt, rep); return; }
    if (hit) {
      char line[400]; size_t k = 0; while (hit[k] && hit[k] != '\n' && k < 399) { line[k] = hit[k]; ++k; } line[k] = 0;
      snprintf(t, sizeof t, "size=%lu ", (unsigned long)b->n);
      if (!hx_find(line, t)) { FAIL("leak", "leak report has the wrong size: '%s' expected %lu", line, b->n); return; }
      snprintf(t, sizeof t, "'%s'", b->kind);
      if (!hx_find(line, t)) { FAIL("leak", "leak report has the wrong kind: '%s' expected %s", line, b->kind); return; }
#ifndef DUMA_SO_LIBRARY /* the shared library does not name the place: the file name may be unloaded by then */
      if (b->src) { snprintf(t, sizeof t, "%s(%d)", b->file, b->line); if (!hx_find(line, t)) { FAIL("leak", "leak report has the wrong source: '%s' expected %s", line, t); return; } }
#endif
    }
  }
  /* number of entries */
  long entries = 0; const char *q = txt;
  while ((q = hx_find(q, "DUMA: ptr="))) { ++entries; ++q; }
  for (int i = 0; i < nD; ++i) { char t[80]; int lv = 0; for (int j = 0; j < nL; ++j) if (B[L[j]].p == B[D[i]].p) lv = 1; snprintf(t, sizeof t, "ptr=0x%lx ", (unsigned long)B[D[i]].p); if (!lv && hx_find(txt, t)) { FAIL("leak", "leak report lists released block %#lx", B[D[i]].p); return; } }
  long rep = 0, extra = 0;
  q = hx_find(txt, "Reported "); if (q) rep = hx_num(q + 9);
  q = hx_find(txt, "There are "); if (q) extra = hx_num(q + 10);
  if (rep_base_n < 0) { rep_base_n = entries; rep_base_extra = extra; if (entries != rep) FAIL("leak", "leak report prints %ld entries but a total of %ld", entries, rep); }
  else {
    if (entries != exp_rep + rep_base_n) { FAIL("leak", "leak report has %ld entries, %ld expected", entries, exp_rep + rep_base_n); return; }
    if (rep != exp_rep + rep_base_n || extra != exp_extra + rep_base_extra) { FAIL("leak", "leak totals are %ld reported + %ld extra, expected %ld + %ld", rep, extra, exp_rep + rep_base_n, exp_extra + rep_base_extra); return; }
    if (!exp_rep && !exp_extra && !rep_base_n && !rep_base_extra && (hx_find(txt, "leak") || hx_find(txt, "not freed"))) { FAIL("leak", "leak report is not silent although nothing is live: %s", txt); return; }
  }
  if (cf.show) {
    const char *a = hx_find(txt, "  Allocation(s): "), *d = hx_find(txt, "Deallocation(s): ");
    if (!a || !d) { FAIL("leak", "allocation statistics are missing from the report"); return; }
    long na = hx_num(a + 17), nd = hx_num(d + 17);
    if (!have_cnt) { have_cnt = 1; cnt_base_a = na - m_allocs; cnt_base_d = nd - m_frees; }
    else {
      long df = (na - cnt_base_a) - (nd - cnt_base_d) - (m_allocs - m_frees);
      if (df < 0 || df > m_noblk) FAIL("leak", "allocations minus deallocations = %ld, but %ld blocks were gained", (na - cnt_base_a) - (nd - cnt_base_d), m_allocs - m_frees);
      if (na - cnt_base_a < m_allocs || nd - cnt_base_d < m_frees) FAIL("leak", "reported %ld allocations and %ld deallocations, at least %ld and %ld were made", na - cnt_base_a, nd - cnt_base_d, m_allocs, m_frees);
    }
  }
}

/* new-handler: hmode k > 0 memory is back at the k-th call, -k throws at the k-th call, -100-k removes itself at the k-th call */
static int hmode, hcalls;
#ifdef WITH_CPP
static void on_new(void) {
  ++hcalls;
  if (hcalls > 60) { FAIL("null", "the new-handler is called again and again although memory is available"); hx_sys3(SYS_exit_group, 3, 0, 0); }
  if (hmode > 0 && hcalls >= hmode) { struct Src z; flt.on = 0; void *p = api_c_alloc[0].fn(40, 0, &z); api_c_free[0].fn(p, &z); ++m_allocs; ++m_frees; }
  else if (hmode < -100 && hcalls >= -hmode - 100) api_set_handler(0);
  else if (hmode < 0 && hmode > -100 && hcalls >= -hmode) api_throw();
}
static void judge_handler(struct Op *o, up p) {
  if (!hmode) return;
  int isnew = o->a->fam == FAM_NEW || o->a->fam == FAM_NEWA;
  if (!isnew || !flt.fired) { if (hcalls) FAIL("null", "%s(%ld) called the new-handler %d times without need", o->a->name, o->n, hcalls); return; }
  int k = hmode > 0 ? hmode : hmode < -100 ? -hmode - 100 : -hmode;
  if (api_err == 1000 && hmode < 0 && hmode > -100) FAIL("null", "%s(%ld): the exception thrown by the new-handler arrived as a plain std::bad_alloc", o->a->name, o->n);
  if (api_err == 1001 && !(hmode < 0 && hmode > -100)) FAIL("null", "%s(%ld): the exception of an earlier failure was thrown again", o->a->name, o->n);
  if (hmode > 0 && !p) { FAIL("null", "%s(%ld) gave up after %d calls of the new-handler, which provides memory at call %d", o->a->name, o->n, hcalls, k); return; }
  if (!p && hcalls != k) FAIL("null", "%s(%ld) failed after %d calls of the new-handler, which %s at call %d", o->a->name, o->n, hcalls, hmode < -100 ? "removes itself" : "throws", k);
  if (p && o->fpersist && hcalls && hcalls != k) FAIL("null", "%s(%ld) called the new-handler %d times, %d expected", o->a->name, o->n, hcalls, k);
  if (p && !o->fpersist && hcalls > 1) FAIL("null", "%s(%ld) called the new-handler %d times for one refusal", o->a->name, o->n, hcalls);
}
#else
#define judge_handler(o, p) (void)0
#endif
static struct Blk *newblk(void) { if (nB >= MAXB) hx_fatal("too many blocks"); struct Blk *b = &B[nB]; for (size_t i = 0; i < sizeof *b; ++i) ((volatile char *)b)[i] = 0; L[nL++] = nB++; b->live = 1; b->pat = (u8)(17 + 31 * nB); return b; }
static void age_all(int c) { for (int i = 0; i < nL; ++i) if (B[L[i]].corrupt) B[L[i]].age += c; }

static int ever_filled; /* filling was on at some time: memory used again may hold it */
static void check_new(struct Blk *b, const struct AllocApi *a, int srcfill, struct Blk *old, size_t oldn) {
  volatile u8 *q = (volatile u8 *)b->p;
  if (b->p % b->al) FAIL("align", "%s returned %#lx for size %lu, not a multiple of %lu", a ? a->name : "realloc", b->p, b->n, b->al);
  if (b->below) { if (b->p % PG) FAIL("under", "block %#lx size %lu does not start at a page boundary with protect-below", b->p, b->n); }
  else { size_t gap = pgup(b->p + b->n) - (b->p + b->n); if (gap >= b->al) FAIL("over", "block %#lx size %lu align %lu: %lu unguarded bytes behind its end", b->p, b->n, b->al, gap); }
  for (int i = 0; i < nL - 1; ++i) { struct Blk *o = &B[L[i]]; up lo, hi, l2, h2; if (o == b) continue; extent(o, &lo, &hi); extent(b, &l2, &h2); if (o->zero ? (o->p == b->p) : (lo < h2 && l2 < hi)) { FAIL("data", "new block %#lx size %lu overlaps live block %#lx size %lu", b->p, b->n, o->p, o->n); return; } }
  if (cf.pfree < 0 && cf.maxalloc <= 0) for (int i = 0; i < nD; ++i) { struct Blk *o = &B[D[i]]; up lo, hi, l2, h2; extent(o, &lo, &hi); extent(b, &l2, &h2); if (o->zero) { lo = pgdn(o->p); hi = lo + PG; } if (lo < h2 && l2 < hi) { FAIL("freed", "new block %#lx size %lu reuses released block %#lx size %lu", b->p, b->n, o->p, o->n); return; } }
  /* must be accessible before we read it */
  hx_snapshot_cur();
  up lo, hi; extent(b, &lo, &hi);
  if (!hx_all_rw(lo, hi)) { FAIL("inacc", "new block %#lx size %lu is not accessible", b->p, b->n); hx_sys3(SYS_exit_group, 3, 0, 0); }
  size_t i = 0;
  if (old) { size_t m = oldn < b->n ? oldn : b->n; for (; i < m; i = nx(i, oldn)) if (q[i] != patbyte(old, i)) { FAIL("data", "realloc to %lu lost byte %lu of %lu", b->n, i, oldn); break; } for (i = m; i < b->n; i = nx(i, b->n)) if (q[i]) { FAIL("data", "realloc from %lu to %lu: extension byte %lu is %02x, not zero", oldn, b->n, i, q[i]); break; } }
  else if (srcfill == 2) { for (; i < b->n; ++i) if (q[i] != (u8)strsrc[i]) { FAIL("data", "strdup copied byte %lu wrongly", i); break; } }
  else if (srcfill == 0) { for (; i < b->n; i = nx(i, b->n)) if (q[i]) { FAIL("fill", "calloc byte %lu of %lu is %02x", i, b->n, q[i]); break; } }
  else if (cf.fill >= 0) { for (; i < b->n; i = nx(i, b->n)) if (q[i] != (u8)cf.fill) { FAIL("fill", "%s: byte %lu of %lu is %02x, fill byte is %02lx", a->name, i, b->n, q[i], cf.fill); break; } }
  else if (cf.fill == -1 && !ever_filled && b->n >= 16 && b->n <= nx_big && q[0] && q[0] != (u8)cf.slack) { for (; i < b->n && q[i] == q[0]; ++i) ; if (i >= b->n) FAIL("fill", "%s: all %lu bytes of the block were set to %02x although no filling is asked for", a->name, b->n, q[0]); }
  for (up s = pgdn(b->p); s < b->p; ++s) if (*(volatile u8 *)s != (u8)cf.slack) { FAIL("slack", "padding byte below block %#lx is %02x, not %02lx", b->p, *(volatile u8 *)s, cf.slack); break; }
  for (up s = b->p + b->n; s < pgup(b->p + b->n); ++s) if (*(volatile u8 *)s != (u8)cf.slack) { FAIL("slack", "padding byte above block %#lx is %02x, not %02lx", b->p, *(volatile u8 *)s, cf.slack); break; }
  fill_pat(b);
}
/* executes the operation and updates the model. returns 0, or 1 if the process must stop exploring here */
static struct Src last_s;
#define s last_s
static int exec_op(struct Op *o, struct Exp *e) {
  struct Blk *b; (void)e; s.file = 0; s.line = 0;
  hx_add(&sh->transitions, 1);
  ncall[0] = ncall[1] = ncall[2] = ncall[3] = 0; sh->wcnt = 0;
  flt.on = 0;
  if (o->ftype) { flt.type = o->ftype - 1; flt.k = o->fk; flt.persist = o->fpersist; flt.fired = 0; flt.on = 1; }
  int faulty = o->ftype == 1;
  switch (o->k) {
  case 'A': {
    size_t n = (size_t)o->n; int isdup = o->a->fill == 2;
    if (isdup) { if (!n) n = 1; for (size_t i = 0; i + 1 < n; ++i) strsrc[i] = (char)('a' + i % 23); strsrc[n - 1] = 0; api_str = strsrc; }
    api_err = 0;
    hcalls = 0;
#ifdef WITH_CPP
    if (hmode) api_set_handler(on_new);
#endif
    up p = (up)o->a->fn(n, (size_t)o->al, &s);
    flt.on = 0;
    judge_handler(o, p);
    if (e->maynull) { if (p || api_err != EINVAL) FAIL("align", "%s with alignment %ld returned %#lx, code %d instead of EINVAL", o->a->name, o->al, p, api_err); break; }
    if (n == 0) {
      long st = o->a->cpp_zero ? cf.new0 : cf.mal0;
      if (st != 3) ++m_noblk;
      if (st == 1) { if (p) FAIL("zero", "%s(0) returned %#lx under the NULL strategy", o->a->name, p); break; }
      if (st == 2) { if (!p) FAIL("zero", "%s(0) returned NULL under the fixed-address strategy", o->a->name); else if (fixed0 && p != fixed0) FAIL("zero", "%s(0) returned %#lx, earlier %#lx, under the fixed-address strategy", o->a->name, p, fixed0); else { fixed0 = p; hx_snapshot_cur(); if (hx_any_acc(pgdn(p), pgdn(p) + PG)) FAIL("zero", "fixed zero-size address is accessible"); if (!hx_faults(p, 0)) FAIL("zero", "fixed zero-size address can be read"); for (int i = 0; i < nL; ++i) if (B[L[i]].p == p) FAIL("zero", "fixed zero-size address is a live block"); } break; }
    }
    if (!p) {
      if (!faulty) { FAIL("null", "%s(%lu) returned NULL", o->a->name, (unsigned long)n); return 1; }
      if (!flt.fired) FAIL("null", "%s(%lu) returned NULL although no system call failed", o->a->name, (unsigned long)n);
      if (cf.failexit && !o->a->cpp_zero && o->a->fam == FAM_C) FAIL("failexit", "%s(%lu) returned NULL although exit-on-failure is set", o->a->name, (unsigned long)n);
      if (hx_find(o->a->name, "posix") && api_err != ENOMEM) FAIL("null", "posix_memalign returned code %d for lack of memory", api_err);
#ifdef WITH_CPP
      if (o->a->fam != FAM_C && o->a->fam < FAM_MNEW) { int nt = hx_find(o->a->name, "_nt") != 0; if (nt && api_err >= 1000) FAIL("null", "nothrow new threw"); if (!nt && api_err != 1000 && api_err != 1001) FAIL("null", "throwing new returned NULL"); }
#endif
      age_all(1); ++m_noblk;
      break;
    }
    if (hx_find(o->a->name, "posix") && api_err) FAIL("null", "posix_memalign returned code %d with a block", api_err);
    b = newblk();
    b->p = p; b->n = n; b->zero = n == 0; b->fam = o->a->fam; b->kind = o->a->kind; b->src = SRC(o->a->src); b->file = s.file; b->line = s.line; b->below = (int)cf.below; b->al = b->zero ? 1 : eff_align(o->a, n, (size_t)o->al);
    ++m_allocs; age_all(1);
    if (b->zero) {
      for (int i = 0; i < nL - 1; ++i) { up lo, hi; slack_extent(&B[L[i]], &lo, &hi); if (B[L[i]].p == p || (lo <= p && p < hi)) FAIL("zero", "zero-size block %#lx collides with a live block", p); }
      if (cf.pfree < 0) for (int i = 0; i < nD; ++i) if (B[D[i]].p == p) FAIL("freed", "zero-size block reuses released address %#lx", p);
    } else check_new(b, o->a, o->a->fill, 0, 0);
    probe(b);
    break; }
  case 'F': {
    const struct FreeApi *f = o->f; b = nth_live(o->which);
    if (!f) f = auto_f(b->fam);
    f->fn((void *)b->p, &s);
    flt.on = 0;
    kill_blk(b); ++m_frees; age_all(1);
    if (b->zero || cf.pfree < 0 || 1) { hx_add(&sh->probes, 2); if (!hx_faults(b->p, 0) || (b->n && !hx_faults(b->p + b->n - 1, 1))) FAIL("freed", "released block %#lx size %lu is still accessible", b->p, b->n); }
    hx_snapshot_cur();
    check_budget(b, o->text);
    break; }
  case 'R': {
    b = nth_live(o->which); size_t oldn = b->n;
    up p = (up)(hx_eq(o->mode, "m") ? api_m_realloc((void *)b->p, (size_t)o->n, &s) : api_p_realloc((void *)b->p, (size_t)o->n));
    flt.on = 0;
    if (o->n == 0) { if (p) FAIL("data", "realloc(p, 0) returned %#lx", p); kill_blk(b); ++m_frees; age_all(1); check_budget(b, o->text); break; }
    if (!p) {
      if (!faulty || !flt.fired) FAIL("null", "realloc(p, %ld) returned NULL although no system call failed", o->n);
      if (cf.failexit) FAIL("failexit", "realloc returned NULL although exit-on-failure is set");
      ++m_noblk;
      break;
    }
    struct Blk *nb = newblk();
    nb->p = p; nb->n = (size_t)o->n; nb->fam = FAM_C; nb->kind = "realloc()"; nb->src = SRC(hx_eq(o->mode, "m")); nb->file = s.file; nb->line = s.line; nb->below = (int)cf.below;
    { static const struct AllocApi dummy = {"realloc", FAM_C, 0, 0, 0, 1, "", 0}; nb->al = eff_align(&dummy, nb->n, 0); }
    if (p == b->p) FAIL("freed", "realloc returned the old address");
    check_new(nb, 0, 0, b, oldn);
    kill_blk(b); ++m_allocs; ++m_frees; age_all(2);
    probe(nb);
    check_budget(b, o->text);
    break; }
  case 'U': { b = nth_live(o->which); size_t z = hx_eq(o->mode, "m") ? api_m_usable((void *)b->p) : api_p_usable((void *)b->p); flt.on = 0; if (z != b->n) FAIL("usable", "usable size of a block of %lu bytes reported as %lu", b->n, z); break; }
  case 'K': if (o->which == -2) api_checkall(); else api_check((void *)nth_live(o->which)->p); flt.on = 0; break;
  case 'L': do_leak_report(); flt.on = 0; break;
  case 'Z': api_newframe(); break;
  case 'V': b = nth_live(o->which);
    if (__real_mprotect((void *)pgdn(b->p), pgup(b->p + b->n) - pgdn(b->p), PROT_READ)) hx_fatal("mprotect");
    api_c_free[0].fn((void *)b->p, &s);
    kill_blk(b); ++m_frees; age_all(1); hx_snapshot_cur(); check_budget(b, o->text);
    break;
  case 'M': {
    static u8 mb[64]; for (int i = 0; i < 64; ++i) mb[i] = (u8)(i + 1);
    const memfn *t = hx_eq(o->mode, "m") ? api_mem_m : api_mem_p; int f = -1;
    static const char *const nm[] = {"memcpy", "memmove", "strcpy", "strncpy", "strcat", "strncat"};
    for (int i = 0; i < 6; ++i) if (hx_eq(nm[i], o->cls)) f = i;
    if (f < 0) hx_fatal(o->text);
    u8 *src = mb + 24, *dst = src + o->n; u8 was[64];
    if (f >= 2) { src[5] = 0; dst = mb + 40; if (f >= 4) mb[42] = 0; }
    for (int i = 0; i < 64; ++i) was[i] = mb[i];
    void *r = t[f](dst, src, 8);
    if (r != dst) FAIL("mem", "%s returned %p, not the destination", o->cls, r);
    for (int i = 0; i < 64; ++i) {
      int k = (int)(mb + i - dst), want = was[i];
      if (f <= 1) { if (k >= 0 && k < 8) want = was[24 + k]; }
      else if (f == 2) { if (k >= 0 && k <= 5) want = was[24 + k]; }
      else if (f == 3) { if (k >= 0 && k < 8) want = k <= 5 ? was[24 + k] : 0; }
      else { if (k >= 2 && k <= 7) want = was[24 + k - 2]; }
      if (mb[i] != (u8)want) { FAIL("mem", "%s: byte %d is %02x, expected %02x", o->cls, i, mb[i], want); break; }
    }
    break; }
  case 'S':
    if (hx_eq(o->mode, "below")) { api_set_below((int)o->n); cf.below = o->n != 0; }
    else if (hx_eq(o->mode, "align")) { api_set_align((int)o->n); cf.align = o->n ? o->n : 1; }
    else if (hx_eq(o->mode, "fill")) { api_set_fill((int)o->n); cf.fill = o->n; if (o->n >= 0) ever_filled = 1; }
    break;
  case 'W': { int ok; b = nth_live(o->which); up a = slack_addr(b, o->cls, &ok); *(volatile u8 *)a ^= (u8)o->n; if (!b->corrupt) b->age = 0; b->corrupt ^= 1 << slackbit(o->cls); break; }
  case 'E': {
    int ok; up a = bad_addr(o, &ok);
    if (o->f) o->f->fn((void *)a, &s);
    else if (hx_eq(o->mode, "m_realloc")) (void)api_m_realloc((void *)a, 40, &s);
    else if (hx_eq(o->mode, "p_realloc")) (void)api_p_realloc((void *)a, 40);
    else if (hx_eq(o->mode, "m_usable")) (void)api_m_usable((void *)a);
    else if (hx_eq(o->mode, "p_usable")) (void)api_p_usable((void *)a);
    else api_check((void *)a);
    break; }
  case 'P': for (long i = 0; i < o->n; ++i) { struct Src z; void *p = api_c_alloc[0].fn((size_t)o->al, 0, &z); api_c_free[0].fn(p, &z); ++m_allocs; ++m_frees; } age_all((int)(2 * o->n)); break;
  case 'G': /* a row of blocks that stay */
  case 'O': /* starve: no memory from the system during a row of requests */
    flt.type = 0; flt.k = 1; flt.persist = 1; flt.fired = 0;
    for (long i = 0; i < o->n; ++i) {
      flt.on = o->k == 'O';
      up p = (up)api_c_alloc[0].fn((size_t)o->al, 0, &s);
      flt.on = 0;
      if (!p) { if (!flt.fired) { FAIL("null", "malloc(%ld) returned NULL although no system call failed", o->al); break; } ++m_noblk; age_all(1); continue; }
      b = newblk();
      b->p = p; b->n = (size_t)o->al; b->fam = FAM_C; b->kind = api_c_alloc[0].kind; b->src = SRC(api_c_alloc[0].src); b->file = s.file; b->line = s.line; b->below = (int)cf.below; b->al = eff_align(&api_c_alloc[0], b->n, 0);
      ++m_allocs; age_all(1);
      u64 nv = sh->nviol; if (o->k == 'O') check_new(b, &api_c_alloc[0], 1, 0, 0); else fill_pat(b); if (sh->nviol != nv) break;
    }
    break;
  case 'Q':
    if (hx_eq(o->mode, "free")) { api_c_free[0].fn((void *)fixed0, &s); }
    else if (hx_eq(o->mode, "pfree")) { api_p_free[0].fn((void *)fixed0, &s); }
#ifdef WITH_CPP
    else if (hx_eq(o->mode, "del")) { find_f("del")->fn((void *)fixed0, &s); }
    else if (hx_eq(o->mode, "dela")) { find_f("dela")->fn((void *)fixed0, &s); }
#endif
    else if (hx_eq(o->mode, "nullm")) { api_c_free[0].fn(0, &s); }
    else if (hx_eq(o->mode, "nullp")) { api_p_free[0].fn(0, &s); }
    else if (hx_eq(o->mode, "nullr")) { api_p_free[1].fn(0, &s); api_c_free[1].fn(0, &s); m_noblk += 2; }
    else if (hx_eq(o->mode, "nullu")) { if (api_m_usable(0) || api_p_usable(0)) FAIL("zero", "usable size of the null pointer is not 0"); }
    else if (hx_eq(o->mode, "nullk")) api_check(0);
#ifdef WITH_CPP
    else if (hx_pre(o->mode, "null") && find_f(o->mode + 4)) { find_f(o->mode + 4)->fn(0, &s); }
#endif
    else if (hx_eq(o->mode, "null")) { api_c_free[0].fn(0, &s); api_p_free[0].fn(0, &s); }
    else if (hx_eq(o->mode, "usable")) { size_t z = api_m_usable((void *)fixed0); if (z) FAIL("zero", "usable size of the zero-size address is %lu", z); }
    else if (hx_eq(o->mode, "check")) api_check((void *)fixed0);
    else if (hx_eq(o->mode, "realloc")) {
      up p = (up)api_m_realloc((void *)fixed0, (size_t)o->n, &s);
      if (o->n == 0) { break; }
      if (!p) { FAIL("zero", "realloc of the zero-size address returned NULL"); break; }
      struct Blk *nb = newblk(); nb->p = p; nb->n = (size_t)o->n; nb->fam = FAM_C; nb->kind = "realloc()"; nb->src = SRC(1); nb->file = s.file; nb->line = s.line; nb->below = (int)cf.below; nb->al = 1;
      { static const struct AllocApi dummy = {"realloc", FAM_C, 0, 0, 0, 1, "", 0}; nb->al = eff_align(&dummy, nb->n, 0); }
      ++m_allocs;
      struct Blk dummyold = *nb; check_new(nb, 0, 9, &dummyold, 0);
    }
    break;
  }
  flt.on = 0;
  return 0;
}
#undef s
static void after(struct Op *o) {
  check_pages(o->text);
  if (cf.pfree < 0) check_budget(0, o->text);
  check_contents(o->text);
  if (always_report && o->k != 'L') { do_leak_report(); check_pages("leak report"); }
  hx_seen(state_hash());
}

#ifndef CONC
/* ------------------------------------------------------------------ explorer */
#define MAXOPS 4096
static struct Op ops[MAXOPS]; static int nops;
static int maxdepth = 2, shardi = 0, nshards = 1, fdepth = 0, tmo = 20, dofaults[4];
static int path[64]; static char ptxt[64][72];
static const char *prefix_s = "";
static void build_curops(int d) {
  size_t c = 0; curops[0] = 0;
  for (const char *s = prefix_s; *s && c < sizeof curops - 2; ++s) curops[c++] = *s;
  if (c) curops[c++] = ';';
  for (int i = 0; i <= d; ++i) { for (const char *s = ptxt[i]; *s && c < sizeof curops - 2; ++s) curops[c++] = *s; if (i < d && c < sizeof curops - 2) curops[c++] = ';'; }
  curops[c] = 0;
}
static const char *deathname(int st) { static char t[64]; if (WIFSIGNALED(st)) snprintf(t, sizeof t, "signal %d", WTERMSIG(st)); else snprintf(t, sizeof t, "exit code %d", WEXITSTATUS(st)); return t; }
static void explore(int d, int md, int usefaults);
static char x_exp[4][400]; static int x_nexp; static struct Blk x_old; static int x_src;
static void srcname(char *o, size_t z, int src, const char *file, int line) { if (src && file) snprintf(o, z, "%s(%d)", file, line); else snprintf(o, z, "*(0)"); }
static void before_trace(struct Op *o) {
  struct Blk *b; x_nexp = 0;
  if (o->k == 'R' || o->k == 'F' || o->k == 'V') { b = nth_live(o->which); x_old = *b; x_src = SRC(o->k == 'R' ? hx_eq(o->mode, "m") : o->k == 'V' ? 1 : (o->f ? o->f : auto_f(b->fam))->src); }
}
static void expect_trace(struct Op *o) { /* after the operation: last_s is where it was called */
  char a[360], b2[360]; x_nexp = 0;
  if (!cf.show) return;
  if (o->k == 'A') {
    if (o->a->aligned == 1 && hx_find(o->a->name, "posix") && (!is_pow2((size_t)o->al) || o->al < 8)) return;
    srcname(a, sizeof a, SRC(o->a->src), last_s.file, last_s.line);
    size_t n = (size_t)o->n; if (o->a->fill == 2 && !n) n = 1;
    snprintf(x_exp[x_nexp++], 400, "Allocating %lu byte(s) at %s.%s", (unsigned long)n, a, n ? "" : " This is ANSI compliant but probably a bug. See DUMA_ALLOW_MALLOC_0.");
  }
  if (o->k == 'R' || o->k == 'F' || o->k == 'V') {
    srcname(a, sizeof a, x_src, last_s.file, last_s.line); srcname(b2, sizeof b2, x_old.src, x_old.file, x_old.line);
    if (o->k == 'R' && o->n) snprintf(x_exp[x_nexp++], 400, "Allocating %lu byte(s) at %s.", (unsigned long)o->n, a);
    snprintf(x_exp[x_nexp++], 400, "Freeing %lu byte(s) at %s (Allocated from %s).", (unsigned long)x_old.n, a, b2);
  }
}
/* returns 1 if the child survived the operation */
static int run_child(struct Op *o, int d, int md, int usefaults) {
  struct Exp e; predict(o, &e);
  hx_cpy(ptxt[d], o->text, 72);
  build_curops(d);
  hx_clear(capfd[d]);
  if (snk) { hx_clear(capo[d]); hx_clear(capq[d]); }
  sh->phase[d] = 1;
  int pid = fork();
  if (pid < 0) hx_fatal("fork");
  if (!pid) {
    dup2(capfd[d], 2);
    if (snk) { dup2(capo[d], 1); dup2(capq[d], SINKF); before_trace(o); }
    alarm((unsigned)tmo);
    if (exec_op(o, &e)) hx_sys3(SYS_exit_group, 3, 0, 0);
    sh->phase[d] = 2;
    if (snk && (!o->ftype || o->ftype == 4)) { const char *z = snk_text(d); expect_trace(o); if (o->k != 'P' && o->k != 'G' && o->k != 'O') check_trace(z, x_exp, x_nexp, o->text); }
    for (int t = 0; t < 4; ++t) sh->cnt[d * 4 + t] = (u64)ncall[t];
    alarm(0);
    if (e.must) { FAIL(o->k == 'W' ? "" : o->k == 'E' ? "bad" : o->k == 'F' && e.tok[2] ? "mismatch" : "detect", "%s, but it returned", e.why); hx_sys3(SYS_exit_group, 3, 0, 0); }
    if (o->ftype == 2 && flt.fired) { FAIL("mprotect", "operation returned although a page-protection call was refused"); hx_sys3(SYS_exit_group, 3, 0, 0); }
    u64 nv = sh->nviol;
    alarm((unsigned)tmo);
    after(o);
    alarm(0);
    if (sh->nviol != nv) hx_sys3(SYS_exit_group, 3, 0, 0);
    sh->phase[d] = 3;
    if (d + 1 < md) explore(d + 1, md, usefaults); else hx_add(&sh->histories, 1);
    hx_sys3(SYS_exit_group, 0, 0, 0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3)) return sh->phase[d] >= 2;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 99) hx_sys3(SYS_exit_group, 99, 0, 0);
  const char *txt = snk ? snk_text(o->k == 'L' ? 63 : d) : hx_readcap(capfd[d]);
  if (snk && sh->phase[d] == 1 && !snk_visible()) { if (!e.must && !e.may) FAIL("falsealarm", "operation ended the process (%s) although it is legal", deathname(st)); hx_add(&sh->deaths, 1); hx_add(&sh->histories, 1); return 0; }
  if (!snk && o->k == 'L' && !hx_find(txt, "DUMA Abort")) txt = hx_readcap(capfd[63]);
  if (sh->phase[d] == 1) { /* died inside the operation */
    hx_add(&sh->deaths, 1); hx_add(&sh->histories, 1);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { FAIL("hang", "operation does not return within %d s", tmo); return 0; }
    if (o->ftype == 2) { if (!hx_find(txt, "DUMA Abort")) FAIL("mprotect", "process died (%s) without a diagnostic after a refused page-protection call: %s", deathname(st), txt); return 0; }
    if (o->ftype == 1 && cf.failexit) { if (!hx_find(txt, "DUMA")) FAIL("failexit", "process died (%s) without a diagnostic when memory was refused: %s", deathname(st), txt); else if (o->a && o->a->fam != FAM_C && o->fpersist == 0) FAIL("failexit", "new ended the process: %s", txt); return 0; }
    if (!e.must && !e.may) { FAIL(hx_find(txt, "DUMA Abort") ? "falsealarm" : "crash", "operation ended the process (%s) although it is legal: %s", deathname(st), txt); return 0; }
    for (int i = 0; i < 3; ++i) if (e.tok[i] && !hx_find(txt, e.tok[i])) { FAIL(o->k == 'F' ? "mismatch" : "diag", "%s; it ended (%s) without saying '%s': %s", e.why, deathname(st), e.tok[i], txt); return 0; }
    if (e.anydeath) return 0;
    if (!hx_find(txt, "DUMA Abort")) { FAIL("diag", "%s; it ended (%s) without a diagnostic: %s", e.why, deathname(st), txt); return 0; }
    if (o->k == 'A' || o->k == 'F' || o->k == 'R' || o->k == 'K') {
      if (e.named) { if (!diag_names(txt, e.named)) FAIL("diag", "%s; diagnostic does not name block %#lx size %lu %s(%d): %s", e.why, e.named->p, e.named->n, e.named->file ? e.named->file : "?", e.named->line, txt); }
      else if (!e.tok[0]) { int hit = 0; for (int i = 0; i < nL; ++i) if (B[L[i]].corrupt && diag_names(txt, &B[L[i]])) hit = 1; if (!hit) FAIL("diag", "%s; diagnostic names no damaged block: %s", e.why, txt); }
    }
    if (o->k == 'E') { int ok; up a = bad_addr(o, &ok); char t[40]; snprintf(t, sizeof t, "%lx", (unsigned long)a); if (!hx_find(o->cls, "stack") && !(early && hx_find(txt, "called before first malloc()")) && !hx_find(txt, t)) FAIL("diag", "%s; diagnostic does not show the address %#lx: %s", e.why, a, txt); }
    return 0;
  }
  if (sh->phase[d] == 2) { FAIL(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "hang" : "crash", "checks after the operation ended with %s: %s", deathname(st), txt); return 1; }
  FAIL("crash", "explorer process ended with %s: %s", deathname(st), txt);
  return 1;
}
static void explore(int d, int md, int usefaults) {
  for (int i = 0; i < nops; ++i) {
    struct Op *o = &ops[i];
    if (!enabled(o)) continue;
    if (nshards > 1 && usefaults != 2) {
      if (d == 0 && maxdepth == 1 && i % nshards != shardi) continue;
      if (d == 1 && (path[0] * 31 + i) % nshards != shardi) continue;
    }
    if (sh->nviol >= MAXV) return;
    path[d] = i;
    int alive = run_child(o, d, md, usefaults);
    if (!alive && usefaults == 1 && dofaults[3] && snk) { /* the last message of a process */
      static char want[65536]; hx_cpy(want, snk_text(d), sizeof want); u64 w = sh->wcnt;
      for (u64 k = 1; k <= w; ++k) for (int per = 0; per < 2; ++per) {
        struct Op f = *o; f.ftype = 4; f.fk = (int)k; f.fpersist = per;
        snprintf(f.text, sizeof f.text, "%s@w%lu%s", o->text, (unsigned long)k, per ? "+" : "");
        u64 nv = sh->nviol; run_child(&f, d, d + 1, 2);
        if (sh->nviol == nv && !hx_eq(snk_text(d), want)) FAIL("sink", "message is cut short when an output takes only a part: '%s' instead of '%s'", snk_text(d), want);
      }
    }
    if (!alive || usefaults != 1) continue;
    if (d == 0 && nshards > 1 && maxdepth > 1 && i % nshards != shardi) continue;
    u64 c[4]; for (int t = 0; t < 4; ++t) c[t] = sh->cnt[d * 4 + t];
    /* the counts were taken by the child that executed exactly this operation in this state; nested
       exploration may have overwritten deeper entries only */
    for (int t = 0; t < 4; ++t) if (dofaults[t]) for (u64 k = 1; k <= c[t]; ++k) for (int per = 0; per < 2; ++per) {
      struct Op f = *o; f.ftype = t + 1; f.fk = (int)k; f.fpersist = per;
      snprintf(f.text, sizeof f.text, "%s@%c%lu%s", o->text, "mpuw"[t], (unsigned long)k, per ? "+" : "");
      hx_add(&sh->aux[t], 1);
      run_child(&f, d, d + 1 + fdepth, 2);
    }
  }
}
/* ------------------------------------------------------------------ cycles: repeat a word, watch the footprint */
static int run_plain(struct Op *o) { struct Exp e; predict(o, &e); hx_cpy(ptxt[0], o->text, 72); if (!enabled(o)) return 0; exec_op(o, &e); return 1; }
static void cycles(long reps, int md) {
  /* every word over the alphabet up to length md that leaves the live set unchanged */
  static int w[8];
  for (int len = 1; len <= md; ++len) {
    long total = 1; for (int i = 0; i < len; ++i) total *= nops;
    for (long c = 0; c < total; ++c) {
      if (nshards > 1 && c % nshards != shardi) continue;
      long z = c; int net = 0, bad = 0, newest = 0;
      for (int i = 0; i < len; ++i) { w[i] = (int)(z % nops); z /= nops; struct Op *o = &ops[w[i]]; if (o->k == 'A') { ++net; } else if (o->k == 'F') { if (net + nL <= o->which || net <= 0) bad = 1; --net; } else if (o->k == 'R') { if (net <= 0) bad = 1; } (void)newest; }
      if (bad || net) continue;
      size_t cc = 0; for (const char *s = "C:"; *s; ++s) curops[cc++] = *s;
      for (int i = 0; i < len; ++i) { for (const char *s = ops[w[i]].text; *s; ++s) curops[cc++] = *s; curops[cc++] = ';'; } curops[cc] = 0;
      hx_clear(capfd[0]);
      int pid = fork();
      if (!pid) {
        dup2(capfd[0], 2); alarm((unsigned)tmo * 5); nx_big = (size_t)1 << 17; nx_shift = 16;
        size_t maxA = 0; static size_t fp[100000];
        for (long r = 0; r < reps; ++r) {
          for (int i = 0; i < len; ++i) run_plain(&ops[w[i]]);
          if (r < 64 || r % 8 == 0) { check_pages("cycle"); check_contents("cycle"); }
          if (sh->nviol) break;
          fp[r] = footprint();
          /* forget released blocks so that the model stays bounded */
          nD = 0; forgot = 1; if (nL == 0) nB = 0;
          hx_seen(hx_mix(fp[r], (u64)c));
        }
        if (!sh->nviol && (cf.pfree >= 0 || cf.maxalloc > 0)) {
          for (long r = 0; r < reps / 2; ++r) if (fp[r] > maxA) maxA = fp[r];
          for (long r = reps / 2; r < reps; ++r) if (fp[r] > maxA) { FAIL("bounded", "address space keeps growing: %lu kB at most in the first %ld repetitions, %lu kB at repetition %ld", maxA >> 10, reps / 2, fp[r] >> 10, r); break; }
        }
        hx_add(&sh->histories, 1);
        hx_sys3(SYS_exit_group, 0, 0, 0);
      }
      int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) FAIL("crash", "repeating the cycle ended with %s: %s", deathname(st), hx_readcap(capfd[0]));
      if (sh->nviol >= 8) return;
    }
  }
}
static void add_ops(char *spec, int run, int d0);
int main(int argc, char **argv, char **envp);
static const char *first_s;
static void early_main(int argc, char **argv, char **envp, int when) {
  if (envn(envp, "HX_NOASLR", 0) == 0) return; /* main() starts the program again without address randomisation */
  if (envn(envp, "HX_EARLY", 0) == when) { early = 1; int rc = main(argc, argv, envp); hx_sys3(SYS_exit_group, rc, 0, 0); }
  if (envn(envp, "HX_WHEN", 1) == when) for (char **e = envp; *e; ++e) if (hx_pre(*e, "HX_FIRST=")) first_s = *e + 9;
  if (first_s && !early) { early = 1; hx_cpy(curops, first_s, sizeof curops); read_cf(envp); hx_install_segv(); for (int i = 0; i < 64; ++i) capfd[i] = (int)hx_memfd(); rep_base_n = 0; add_ops((char *)first_s, 1, 0); check_pages("first operations"); check_contents("first operations"); early = 0; }
}
static int start1 = -1, start2 = -1;
/* the messages of initialisation: the start-up message once unless disabled, the trace of DUMA's own requests if enabled */
static void snk_start(void) {
  dup2(start1, 1); dup2(start2, 2);
  const char *t = snk_text(62);
  if (snk_visible() && *banner_s && !hx_find(t, banner_s)) FAIL("sink", "start-up message missing: '%s'", t);
  if (!cf.show) check_trace(t, x_exp, 0, "start-up");
  else if (*banner_s && hx_find(t, banner_s) && banner_seen++) FAIL("sink", "the start-up message is written twice: '%s'", t);
}
static void pre(int argc, char **argv, char **envp) {
  (void)argc; (void)argv; (void)envp;
  sh = (struct Shared *)hx_mmap_shared(sizeof *sh);
  foreign = (u8 *)hx_mmap_shared(4096);
  hx_snapshot_base();
  if (envn(envp, "HX_SINKS", 0) && !envn(envp, "HX_NOASLR", 0)) { /* start again without address randomisation before anything is printed */
    long per = hx_sys3(SYS_personality, 0xffffffff, 0, 0); static char *ne[512]; int i = 0;
    for (; envp[i] && i < 500; ++i) ne[i] = envp[i];
    ne[i++] = (char *)"HX_NOASLR=1"; ne[i] = 0;
    hx_sys3(SYS_personality, per | ADDR_NO_RANDOMIZE, 0, 0); hx_sys3(SYS_execve, (long)"/proc/self/exe", (long)argv, (long)ne);
  }
  if (envn(envp, "HX_SINKS", 0) && envn(envp, "HX_NOASLR", 0)) { /* capture the outputs from the very first message on */
    snk = 1; ko = envn(envp, "DUMA_OUTPUT_STDOUT", 0) != 0; ke = envn(envp, "DUMA_OUTPUT_STDERR", 1) != 0;
    for (char **e = envp; *e; ++e) if (hx_eq(*e, "DUMA_OUTPUT_FILE=/proc/self/fd/900")) kf = 1;
    start1 = (int)hx_sys3(SYS_dup, 1, 0, 0); start2 = (int)hx_sys3(SYS_dup, 2, 0, 0);
    capo[62] = (int)hx_memfd(); capfd[62] = (int)hx_memfd(); capq[62] = (int)hx_memfd();
    hx_sys3(SYS_dup2, capo[62], 1, 0); hx_sys3(SYS_dup2, capfd[62], 2, 0); hx_sys3(SYS_dup2, capq[62], SINKF, 0);
  }
  early_main(argc, argv, envp, 2);
}
__attribute__((section(".preinit_array"), used)) static void (*pre_p)(int, char **, char **) = pre;

__attribute__((constructor(101))) static void ctor101(int argc, char **argv, char **envp) { early_main(argc, argv, envp, 1); }

static void add_ops(char *spec, int run, int d0) { /* ';'-separated */
  (void)d0;
  while (*spec) {
    char t[72]; size_t c = 0;
    while (*spec && *spec != ';' && c < 71) t[c++] = *spec++;
    t[c] = 0; while (*spec == ';') ++spec;
    if (!c) continue;
    if (run) { struct Op o; parse_op(t, &o); if (!enabled(&o)) hx_fatal("prefix operation is not possible"); struct Exp e; predict(&o, &e); exec_op(&o, &e); }
  }
}
static void allow_foreign(void) { /* keep accessible pages that exist now (C++ runtime) out of the oracle */
  hx_snapshot_cur();
  for (int i = 0; i < hx_ncur; ++i) { int j = hx_nbase++; for (; j > 0 && hx_base[j - 1].lo > hx_cur[i].lo; --j) hx_base[j] = hx_base[j - 1]; hx_base[j] = hx_cur[i]; }
}
int main(int argc, char **argv, char **envp) {
  const char *mode = argc > 1 ? argv[1] : ""; const char *statef = 0; long reps = 0; int foreignok = 0;
  int per = personality(0xffffffff);
  if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && personality((unsigned long)per | ADDR_NO_RANDOMIZE) >= 0) { if (envn(envp, "HX_NOASLR", 0) == 0) { static char *ne[512]; int i = 0; for (; envp[i] && i < 500; ++i) ne[i] = envp[i]; ne[i++] = (char *)"HX_NOASLR=1"; ne[i] = 0; execve("/proc/self/exe", argv, ne); } }
  if (!early) api_init();
  read_cf(envp);
  { static struct { void *sp; int fl; size_t sz; } ss; ss.sp = hx_altstack; ss.sz = sizeof hx_altstack; (void)ss; }
  hx_install_segv();
  for (int i = 0; i < 64; ++i) if (!capfd[i]) capfd[i] = (int)hx_memfd();
  int i = 2; char *pfx = (char *)"";
  for (; i < argc && !hx_eq(argv[i], "--"); ++i) {
    char *a = argv[i];
    if (hx_pre(a, "depth=")) maxdepth = (int)hx_num(a + 6);
    else if (hx_pre(a, "shard=")) shardi = (int)hx_num(a + 6);
    else if (hx_pre(a, "nshards=")) nshards = (int)hx_num(a + 8);
    else if (hx_pre(a, "fdepth=")) fdepth = (int)hx_num(a + 7);
    else if (hx_pre(a, "timeout=")) tmo = (int)hx_num(a + 8);
    else if (hx_pre(a, "states=")) statef = a + 7;
    else if (hx_pre(a, "banner=")) banner_s = a + 7;
    else if (hx_pre(a, "always=")) always_report = 1;
    else if (hx_pre(a, "handler=")) hmode = (int)hx_num(a + 8);
    else if (hx_pre(a, "reps=")) reps = hx_num(a + 5);
    else if (hx_pre(a, "foreign=")) foreignok = (int)hx_num(a + 8);
    else if (hx_pre(a, "faults=")) { for (char *q = a + 7; *q; ++q) dofaults[*q == 'm' ? 0 : *q == 'p' ? 1 : *q == 'w' ? 3 : 2] = 1; }
    else if (hx_pre(a, "prefix=")) pfx = a + 7;
    else hx_fatal(a);
  }
  prefix_s = pfx;
  if (i < argc) ++i;
  if (snk) { /* what was written before main */
    for (int k = 0; k < 64; ++k) if (!capo[k]) { capo[k] = (int)hx_memfd(); capq[k] = (int)hx_memfd(); }
    if (!early) snk_start();
  }
  rep_base_n = early || first_s ? 0 : -1;
  if (foreignok) allow_foreign();
  hx_cpy(curops, "(start)", sizeof curops);
  if (first_s) hx_cpy(curops, first_s, sizeof curops);
  check_pages("start of main");
  if (first_s) { check_contents("start of main"); do_leak_report(); }
  else if (!early) { /* baseline of the leak report: foreign blocks (C++ runtime) */
    int sv = dup(2), dn = open("/dev/null", O_WRONLY); dup2(dn, 2); do_leak_report(); dup2(sv, 2); close(sv); close(dn);
    if (snk && !snk_visible()) { rep_base_n = 0; rep_base_extra = 0; }
    if (!foreignok && (rep_base_n || rep_base_extra)) FAIL("leak", "leak report names %ld + %ld blocks before the program allocated anything", rep_base_n, rep_base_extra);
  }
  if (hx_eq(mode, "explore")) {
    int sv = dup(2); int cf0 = (int)hx_memfd(); dup2(cf0, 2);
    add_ops(pfx, 1, 0);
    dup2(sv, 2); close(sv);
    hx_cpy(curops, pfx, sizeof curops);
    check_pages("prefix"); check_contents("prefix");
    for (; i < argc; ++i) { if (nops >= MAXOPS) hx_fatal("too many operations"); parse_op(argv[i], &ops[nops++]); }
    hx_seen(state_hash());
    if (!sh->nviol) { if (reps) cycles(reps, maxdepth); else explore(0, maxdepth, dofaults[0] || dofaults[1] || dofaults[2] || dofaults[3]); }
    for (int k = 0; k < nops && k < 4; ++k) hx_cpy(sh->sample[k], ops[(k * 7 + shardi) % nops].text, 200);
    sh->sampled = nops < 4 ? nops : 4;
    hx_report(1);
    if (statef) hx_dump_states(statef);
    if (snk) hx_sys3(SYS_exit_group, sh->nviol ? 1 : 0, 0, 0);
    return sh->nviol ? 1 : 0;
  }
  if (hx_eq(mode, "replay")) {
    /* execute the list as a linear history with the same checks */
    int d = 0; char *s = (char *)(i < argc ? argv[i] : "");
    if (hx_pre(s, "C:")) { /* a cycle */
      s += 2; int w = 0;
      while (*s) { char t[72]; size_t c = 0; while (*s && *s != ';' && c < 71) t[c++] = *s++; t[c] = 0; while (*s == ';') ++s; if (c) { parse_op(t, &ops[w++]); } }
      nops = w; size_t fp[2] = {0, 0}; if (!reps) reps = 400;
      for (long r = 0; r < reps && !sh->nviol; ++r) { for (int k = 0; k < w; ++k) run_plain(&ops[k]); size_t f = footprint(); nD = 0; forgot = 1; if (!nL) nB = 0; if (r < reps / 2) { if (f > fp[0]) fp[0] = f; } else if (f > fp[1]) fp[1] = f; }
      if (fp[1] > fp[0]) FAIL("bounded", "address space keeps growing: %lu kB, later %lu kB", fp[0] >> 10, fp[1] >> 10);
      hx_report(1);
      return sh->nviol ? 1 : 0;
    }
    prefix_s = "";
    while (*s) {
      char t[72]; size_t c = 0;
      while (*s && *s != ';' && c < 71) t[c++] = *s++;
      t[c] = 0; while (*s == ';') ++s;
      if (!c) continue;
      struct Op o; parse_op(t, &o);
      if (!enabled(&o)) { hx_write(1, "replay: operation not possible here: "); hx_write(1, t); hx_write(1, "\n"); break; }
      if (!*s || o.ftype || d >= 60) { /* last one: fork so that a death can be judged */
        /* more operations may follow a surviving fault; run them inside the child by extending ops */
        nops = 0; char *z = s; int md = d + 1;
        ops[nops++] = o;
        if (*z) { /* linear continuation inside the child */
          struct Exp e; predict(&o, &e);
          hx_clear(capfd[0]);
          int pid = fork();
          if (!pid) { dup2(capfd[0], 2); exec_op(&o, &e); after(&o); while (*z && !sh->nviol) { char t2[72]; size_t c2 = 0; while (*z && *z != ';' && c2 < 71) t2[c2++] = *z++; t2[c2] = 0; while (*z == ';') ++z; if (!c2) continue; struct Op o2; parse_op(t2, &o2); if (!enabled(&o2)) break; run_child(&o2, 1, 2, 0); if (*z) { predict(&o2, &e); if (e.must) break; exec_op(&o2, &e); after(&o2); } } hx_sys3(SYS_exit_group, 0, 0, 0); }
          int st; waitpid(pid, &st, 0);
          if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) FAIL("crash", "replay ended with %s: %s", deathname(st), hx_readcap(capfd[0]));
          break;
        }
        run_child(&o, d < 60 ? d : 60, md, 0);
        break;
      }
      struct Exp e; predict(&o, &e);
      hx_cpy(ptxt[d], o.text, 72); build_curops(d);
      if (e.must) { run_child(&o, d, d + 1, 0); break; }
      exec_op(&o, &e); after(&o);
      if (d < 59) ++d;
      if (sh->nviol) break;
    }
    hx_report(1);
    if (snk) hx_sys3(SYS_exit_group, sh->nviol ? 1 : 0, 0, 0);
    return sh->nviol ? 1 : 0;
  }
  hx_write(2, "usage\n");
  return 2;
}
#endif
