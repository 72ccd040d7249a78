/* inp: exhaustive enumeration of inputs within bounds, on the real library.
 *   inp sizes  lo= hi= step= [al=list] [ifs=all|c|x]     every size x interface (x alignment)
 *   inp align                                            every alignment
 *   inp huge                                             sizes at every power of two and near SIZE_MAX
 *   inp calloc                                           pairs of huge counts
 *   inp mem max= ; inp edge max= ; inp overlap arena= max= ; inp big
 */
#include "hx.h"
#include "api.h"
#include "api_mem.h"
#include "duma_config.h"
#ifdef DUMA_NO_GLOBAL_MALLOC_FREE /* plain calls are the C library's */
#define APIS 1
#else
#define APIS 2
#endif
void *__real_mmap(void *, size_t, int, int, int, off_t);
static size_t os_limit = (size_t)16 << 30;
static u64 refused;
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) { if (n > os_limit) { ++refused; errno = ENOMEM; return MAP_FAILED; } return __real_mmap(a, n, p, f | MAP_NORESERVE, fd, o); }
void *__wrap_mmap64(void *a, size_t n, int p, int f, int fd, off_t o) { return __wrap_mmap(a, n, p, f, fd, o); }

static char curops[600];
static int shardi, nshards = 1;
static void fail_(const char *tag, const char *what) {
  u64 i = __atomic_fetch_add(&sh->nviol, 1, __ATOMIC_SEQ_CST);
  if (i < MAXV) { hx_cpy(sh->v[i].what, what, sizeof sh->v[i].what); hx_cpy(sh->v[i].ops, curops, sizeof sh->v[i].ops); hx_cpy(sh->v[i].tag, tag, sizeof sh->v[i].tag); }
}
static char fbuf[500];
#define FAIL(tag, ...) do { snprintf(fbuf, sizeof fbuf, __VA_ARGS__); fail_(tag, fbuf); } while (0)
#define CASE(...) do { snprintf((char *)sh->sample[7], 500, __VA_ARGS__); hx_cpy(curops, (char *)sh->sample[7], sizeof curops); hx_add(&sh->transitions, 1); } while (0)
static int enough(void) { return sh->nviol >= 12; }

static struct { long align, below, fill, slack, pfree, failexit; } cf;
static long envn(char **envp, const char *name, long d) {
  size_t l = hx_len(name);
  for (; *envp; ++envp) if (hx_pre(*envp, name) && (*envp)[l] == '=') return hx_num(*envp + l + 1);
  return d;
}
static size_t eff_align(const struct AllocApi *a, size_t n, size_t al) {
  if (a && a->aligned == 2) return 4096;
  if (a && a->aligned == 1 && al) return al;
  size_t d = (size_t)cf.align;
  if (n < d) { d = 1; while (d * 2 <= n) d *= 2; }
  return d ? d : 1;
}
static const struct AllocApi *ifs[64]; static int nifs;
static const struct FreeApi *fr_of[64];
static char strsrc[1 << 17];
static void load_ifs(int c, int x, int nostr) {
  nifs = 0; (void)x;
  if (c) for (int i = 0; i < api_c_nalloc; ++i) { ifs[nifs] = &api_c_alloc[i]; fr_of[nifs++] = &api_c_free[0]; }
  if (c) for (int i = 0; i < api_p_nalloc; ++i) { ifs[nifs] = &api_p_alloc[i]; fr_of[nifs++] = &api_p_free[0]; }
#ifdef WITH_CPP
  if (x) for (int i = 0; i < api_x_nalloc; ++i) { if (hx_eq(api_x_alloc[i].name, "macnew16")) continue; for (int k = 0; k < api_x_nfree; ++k) if (api_x_free[k].fam == api_x_alloc[i].fam) { ifs[nifs] = &api_x_alloc[i]; fr_of[nifs++] = &api_x_free[k]; break; } }
#endif
  if (nostr) { int j = 0; for (int i = 0; i < nifs; ++i) if (ifs[i]->fill != 2) { ifs[j] = ifs[i]; fr_of[j++] = fr_of[i]; } nifs = j; }
}
static int acc(up a) { return !hx_faults(a, 0); }
static void judge_block(const char *name, up p, size_t n, size_t al, int fillkind) {
  volatile u8 *q = (volatile u8 *)p;
  hx_add(&sh->probes, 4);
  if (p % al) FAIL("align", "%s(%lu) align %lu returned %#lx", name, n, al, p);
  for (up a = pgdn(p); a < p + n; a += PG) if (!acc(a)) { FAIL("inacc", "%s(%lu) align %lu: page %#lx of block %#lx is not accessible", name, n, al, a, p); return; }
  if (hx_faults(p + n - 1, 1)) { FAIL("inacc", "%s(%lu): last byte of block %#lx cannot be written", name, n, p); return; }
  if (hx_faults(p, 1)) { FAIL("inacc", "%s(%lu): first byte of block %#lx cannot be written", name, n, p); return; }
  if (!cf.below) {
    up g = pgup(p + n);
    if (g - (p + n) >= al) FAIL("over", "%s(%lu) align %lu: %lu unguarded bytes behind block %#lx", name, n, al, g - (p + n), p);
    if (!hx_faults(g, 0) || !hx_faults(g, 1)) FAIL("over", "%s(%lu) align %lu: guard %#lx behind block %#lx is accessible", name, n, al, g, p);
  } else {
    if (p % PG) FAIL("under", "%s(%lu) align %lu: block %#lx does not start on a page boundary", name, n, al, p);
    if (!hx_faults(p - 1, 0) || !hx_faults(p - 1, 1)) FAIL("under", "%s(%lu) align %lu: byte before block %#lx is accessible", name, n, al, p);
  }
  /* first and last byte were overwritten by the probes */
  if (n > 2 && n <= 70000) {
    if (fillkind == 1 && cf.fill >= 0) { for (size_t i = 1; i + 1 < n; ++i) if (q[i] != (u8)cf.fill) { FAIL("fill", "%s(%lu): byte %lu is %02x, fill byte is %02lx", name, n, i, q[i], cf.fill); break; } }
    else if (fillkind == 0) { for (size_t i = 1; i + 1 < n; ++i) if (q[i]) { FAIL("fill", "%s(%lu): byte %lu is %02x, not zero", name, n, i, q[i]); break; } }
    else if (fillkind == 2) { for (size_t i = 1; i + 1 < n; ++i) if (q[i] != (u8)strsrc[i]) { FAIL("data", "%s: byte %lu of %lu not copied", name, i, n); break; } }
  }
  for (up s = pgdn(p); s < p; ++s) if (*(volatile u8 *)s != (u8)cf.slack) { FAIL("slack", "%s(%lu) align %lu: padding byte %lu before the block is %02x", name, n, al, p - s, *(volatile u8 *)s); break; }
  for (up s = p + n; s < pgup(p + n); ++s) if (*(volatile u8 *)s != (u8)cf.slack) { FAIL("slack", "%s(%lu) align %lu: padding byte %lu behind the block is %02x", name, n, al, s - p - n, *(volatile u8 *)s); break; }
  size_t u = api_m_usable((void *)p);
  if (u != n || (u = api_p_usable((void *)p)) != n) FAIL("usable", "%s(%lu): usable size %lu", name, n, u);
  api_check((void *)p);
}
static void one(int k, size_t n, size_t al) {
  struct Src s = {0, 0}; const struct AllocApi *a = ifs[k];
  CASE("%s:%lu:%lu %s align=%ld", a->name, n, al, cf.below ? "below" : "above", cf.align);
  if (a->fill == 2) { for (size_t i = 0; i + 1 < n; ++i) strsrc[i] = (char)('a' + i % 23); strsrc[n - 1] = 0; api_str = strsrc; }
  api_err = 0;
  up p = (up)a->fn(n, al, &s);
  if (!p || api_err) { FAIL("null", "%s(%lu) align %lu failed (code %d)", a->name, n, al, api_err); return; }
  size_t ea = eff_align(a, n, al);
  judge_block(a->name, p, n, ea, a->fill);
  fr_of[k]->fn((void *)p, &s);
  if (!hx_faults(p, 0) || !hx_faults(p + n - 1, 1)) FAIL("freed", "%s(%lu): released block %#lx is accessible", a->name, n, p);
  hx_seen(hx_mix(hx_mix(n, ea), (u64)a->fill * 64 + (p & 4095)));
}
static void sizes(long lo, long hi, long step, const char *als) {
  long al[32]; int na = 0;
  while (*als && na < 32) { al[na++] = hx_num(als); while (*als && *als != ',') ++als; if (*als) ++als; }
  for (long n = lo; n <= hi && !enough(); n += step) for (int k = 0; k < nifs; ++k) {
    if (n > (long)sizeof strsrc && ifs[k]->fill == 2) continue;
    if (((n - lo) / step * nifs + k) % nshards != shardi) continue;
    if (ifs[k]->aligned == 1) for (int j = 0; j < na; ++j) { if (hx_find(ifs[k]->name, "posix") && al[j] < 8) continue; one(k, (size_t)n, (size_t)al[j]); }
    else one(k, (size_t)n, 0);
  }
}
/* every pair of sizes: realloc keeps the prefix, zeroes the extension, and the new block is as good as a fresh one */
static void reallocs(long max, long around) {
  static size_t Z[4000]; int nz = 0; long id = 0;
  for (long i = 1; i <= max; ++i) Z[nz++] = (size_t)i;
  for (long k = 1; k <= 3; ++k) for (long d = -around; d <= around; ++d) Z[nz++] = (size_t)(k * 4096 + d);
  Z[nz++] = 70000;
  for (int i = 0; i < nz; ++i) for (int j = 0; j < nz && !enough(); ++j) for (int m = 0; m < 2; ++m) for (int src = 0; src < 2; ++src) {
    if (id++ % nshards != shardi) continue;
    struct Src s = {0, 0}; size_t o = Z[i], n = Z[j];
    CASE("%s realloc(%s %lu -> %lu) %s align=%ld", m ? "m" : "p", src ? "malloc" : "p_malloc", o, n, cf.below ? "below" : "above", cf.align);
    up p = (up)(src ? api_c_alloc[0] : api_p_alloc[0]).fn(o, 0, &s);
    if (!p) { FAIL("null", "malloc(%lu) failed", o); return; }
    for (size_t k = 0; k < o; ++k) ((volatile u8 *)p)[k] = (u8)(k * 13 + (k >> 8) + 5);
    up q = (up)(m ? api_m_realloc((void *)p, n, &s) : api_p_realloc((void *)p, n));
    if (!q) { FAIL("null", "realloc to %lu failed", n); return; }
    volatile u8 *c = (volatile u8 *)q;
    for (size_t k = 0; k < n; ++k) { u8 x = k < o ? (u8)(k * 13 + (k >> 8) + 5) : 0; if (c[k] != x) { FAIL("data", "%s: byte %lu is %02x, expected %02x", curops, k, c[k], x); break; } }
    judge_block("realloc", q, n, eff_align(0, n, 0), -1);
    if (q != p && !hx_faults(p, 0)) FAIL("freed", "%s: the old block is accessible", curops);
    api_c_free[0].fn((void *)q, &s);
    if (!hx_faults(q, 0) || !hx_faults(q + n - 1, 1)) FAIL("freed", "%s: released block is accessible", curops);
    hx_seen(hx_mix(hx_mix(o, n), (u64)m * 2 + (u64)src));
  }
}
/* run f in a child: 0 returned, 1 died with "DUMA Abort", 2 died otherwise */
static int capfd = -1;
static int dies(void (*f)(void *), void *arg) {
  hx_clear(capfd);
  int pid = fork();
  if (!pid) { dup2(capfd, 2); signal(SIGSEGV, SIG_DFL); alarm(20); f(arg); hx_sys3(SYS_exit_group, 0, 0, 0); }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  return hx_find(hx_readcap(capfd), "DUMA Abort") ? 1 : 2;
}
struct Call { const struct AllocApi *a; size_t n, al; };
static void docall(void *v) { struct Call *c = (struct Call *)v; struct Src s; up p = (up)c->a->fn(c->n, c->al, &s); sh->cnt[1] = p; sh->cnt[2] = (u64)api_err; }
static void aligns(void) {
  load_ifs(1, 0, 1);
  /* every alignment up to 5000, and around every power of two */
  static size_t A[12000]; int na = 0;
  for (size_t a = 0; a <= 5000; ++a) A[na++] = a;
  for (int k = 13; k < 64; ++k) for (long d = -2; d <= 2; ++d) A[na++] = ((size_t)1 << k) + (size_t)d;
  A[na++] = ~(size_t)0;
  static const size_t N[] = {1, 24, 4096, 5000};
  for (int i = 0; i < na && !enough(); ++i) {
    size_t al = A[i]; int pw = al && !(al & (al - 1));
    if (i % nshards != shardi) continue;
    for (int k = 0; k < nifs; ++k) {
      if (ifs[k]->aligned != 1) continue;
      int px = hx_find(ifs[k]->name, "posix") != 0;
      for (int j = 0; j < 4; ++j) {
        struct Src s = {0, 0};
        CASE("%s size %lu alignment %lu", ifs[k]->name, N[j], al);
        if (px && (!pw || al < sizeof(void *))) { /* EINVAL, heap unchanged */
          api_err = 0; void *p = ifs[k]->fn(N[j], al, &s);
          if (api_err != EINVAL || p) FAIL("align", "%s(align %lu, size %lu) gave code %d, block %p; EINVAL expected", ifs[k]->name, al, N[j], api_err, p);
          continue;
        }
        if (al == 0) { /* memalign(0): default alignment */ one(k, N[j], 0); continue; }
        if (!pw) { if (j || (k && al > 40 && al < 4990)) continue; struct Call c = {ifs[k], N[j], al}; int r = dies(docall, &c); hx_add(&sh->deaths, 1); if (r == 0) FAIL("align", "%s(align %lu, size %lu) returned %#lx; must abort", ifs[k]->name, al, N[j], (up)sh->cnt[1]); else if (r == 2) FAIL("diag", "%s(align %lu, size %lu) died without a diagnostic", ifs[k]->name, al, N[j]); continue; }
        if (al <= ((size_t)1 << 26)) one(k, N[j], al);
      }
    }
  }
  /* configured alignment x sizes, all other interfaces */
  load_ifs(1, 1, 0);
  for (long a = 1; a <= 4096; a *= 2) { if (shardi != (a == 1 ? 0 : (a * 7 / 4) % nshards)) continue; api_set_align((int)a); cf.align = a; for (size_t n = 1; n <= (a > 64 ? 2 * (size_t)a + 2 : 200) && !enough(); n += (n > 300 && n % 64 > 2 && n % 64 < 62 ? 59 : 1)) for (int k = 0; k < nifs; ++k) if (ifs[k]->aligned != 1) one(k, n, 0); else one(k, n, 0 + (size_t)16); }
}
static struct { up p; size_t n; u8 pat; } keep[8];
static void mkkeep(void) { static const size_t z[8] = {1, 24, 100, 4096, 5000, 8192, 9001, 70000}; struct Src s; for (int i = 0; i < 8; ++i) { keep[i].n = z[i]; keep[i].p = (up)api_c_alloc[0].fn(z[i], 0, &s); keep[i].pat = (u8)(i * 37 + 5); for (size_t k = 0; k < z[i]; ++k) ((volatile u8 *)keep[i].p)[k] = (u8)(keep[i].pat + k); } }
static void ckkeep(int full) { for (int i = 0; i < 8; ++i) { if (!hx_faults(cf.below ? keep[i].p - 1 : pgup(keep[i].p + keep[i].n), 0)) FAIL(cf.below ? "under" : "over", "guard of an existing block of %lu bytes lost", keep[i].n); for (size_t k = 0; k < keep[i].n; k += full ? 1 : (keep[i].n > 200 ? 97 : 1)) if (((volatile u8 *)keep[i].p)[k] != (u8)(keep[i].pat + k)) { FAIL("data", "existing block of %lu bytes damaged at offset %lu", keep[i].n, k); break; } } }
static void judge_huge(const char *name, up p, unsigned __int128 want, size_t al) {
  if (want > (unsigned __int128)os_limit) { FAIL("undersized", "%s of %lu * 2^64 + %lu bytes returned block %#lx although the system refuses that much", name, (unsigned long)(want >> 64), (unsigned long)want, p); return; }
  size_t n = (size_t)want;
  hx_snapshot_cur();
  if (!hx_all_rw(pgdn(p), pgup(p + n))) { FAIL("undersized", "%s(%lu): block %#lx is not accessible over its whole size", name, n, p); return; }
  if (!cf.below && (hx_any_acc(pgup(p + n), pgup(p + n) + PG) || pgup(p + n) - (p + n) >= al)) FAIL("over", "%s(%lu): block %#lx is not guarded", name, n, p);
  if (cf.below && (p % PG || hx_any_acc(p - PG, p))) FAIL("under", "%s(%lu): block %#lx is not guarded", name, n, p);
  if (p % al) FAIL("align", "%s(%lu) returned %#lx, alignment %lu", name, n, p, al);
  if (api_m_usable((void *)p) != n) FAIL("usable", "%s(%lu): usable size %lu", name, n, api_m_usable((void *)p));
}
static void huge1(int k, size_t n, size_t al) {
  struct Src s = {0, 0}; const struct AllocApi *a = ifs[k];
  CASE("%s size %#lx alignment %#lx%s", a->name, n, al, cf.below ? " below" : "");
  size_t touch = n; if (a->aligned == 1 && al > touch) touch = al;
  if ((a->fill == 0 || hx_find(a->name, "realloc") || (a->aligned == 1 && al > ((size_t)1 << 21))) && touch > ((size_t)1 << 22) && touch < os_limit + (1 << 20)) return; /* would touch all of it */
  if (hx_find(a->name, "posix") && al < 8) return;
  api_err = 0;
  up p = (up)a->fn(n, al, &s);
  ckkeep(0);
  if (!p) {
    if (n <= ((size_t)100 << 20) && al <= ((size_t)1 << 24)) FAIL("null", "%s(%lu) failed although the system has memory", a->name, n);
    if (hx_find(a->name, "posix") && api_err != ENOMEM) FAIL("null", "%s(%#lx) returned code %d instead of ENOMEM", a->name, n, api_err);
    if (a->cpp_zero && a->fam < FAM_MNEW && (hx_find(a->name, "_nt") != 0) == (api_err == 1000)) FAIL("null", "%s(%#lx) did not fail as its form promises", a->name, n);
    hx_seen(hx_mix(1, n >> 20));
    return;
  }
  judge_huge(a->name, p, n, eff_align(a, n, al));
  fr_of[k]->fn((void *)p, &s);
  if (!hx_faults(p, 0)) FAIL("freed", "%s(%lu): released block is accessible", a->name, n);
  hx_seen(hx_mix(2, n >> 12));
}
static void huge(void) {
  load_ifs(1, 1, 1);
  mkkeep();
  static const long D[] = {-8193, -8192, -4097, -4096, -4095, -2, -1, 0, 1, 2, 4095, 4096, 4097, 8192};
  static const size_t AL[] = {8, 64, 4096, 8192, (size_t)1 << 20, (size_t)1 << 31, (size_t)1 << 32, (size_t)1 << 40, (size_t)1 << 62, (size_t)1 << 63};
  long id = 0;
  for (int k = 12; k <= 64; ++k) for (unsigned d = 0; d < sizeof D / sizeof *D; ++d) for (int i = 0; i < nifs && !enough(); ++i) {
    size_t n = (k == 64 ? 0 : (size_t)1 << k) + (size_t)D[d];
    if (!n || (k == 64 && D[d] >= 0)) continue;
    if (id++ % nshards != shardi) continue;
    if (ifs[i]->aligned == 1) for (unsigned j = 0; j < sizeof AL / sizeof *AL; ++j) huge1(i, n, AL[j]); else huge1(i, n, 0);
  }
  /* everything near the largest size */
  for (size_t j = 0; j < 9000; ++j) for (int i = 0; i < nifs && !enough(); ++i) {
    if (id++ % nshards != shardi) continue;
    huge1(i, ~(size_t)0 - j, 64); if (j % 16 == 0) { huge1(i, ~(size_t)0 / 2 - j + 4500, 64); huge1(i, ~(size_t)0 - j * 4096, 4096); }
  }
  /* alignments against small sizes */
  for (unsigned j = 0; j < 64; ++j) for (int i = 0; i < nifs && !enough(); ++i) if (ifs[i]->aligned == 1 && (int)(j % (unsigned)nshards) == shardi) { huge1(i, 1, (size_t)1 << j); huge1(i, 5000, (size_t)1 << j); huge1(i, ((size_t)1 << j), (size_t)1 << j); huge1(i, ~(size_t)0 - ((size_t)1 << j), (size_t)1 << j); }
  /* realloc to huge sizes keeps the old block */
  for (int k = 12; k <= 64; ++k) for (unsigned d = 0; d < sizeof D / sizeof *D && !enough(); ++d) for (int m = 0; m < 2; ++m) {
    size_t n = (k == 64 ? 0 : (size_t)1 << k) + (size_t)D[d]; struct Src s;
    if (!n || (k == 64 && D[d] >= 0) || id++ % nshards != shardi) continue;
    if (n > ((size_t)1 << 23) && n < os_limit + (1 << 20)) continue;
    CASE("%s realloc(24 bytes -> %#lx)", m ? "m" : "p", n);
    volatile u8 *o = (volatile u8 *)api_c_alloc[0].fn(24, 0, &s); for (int z = 0; z < 24; ++z) o[z] = (u8)(z * 3);
    volatile u8 *q = (volatile u8 *)(m ? api_m_realloc((void *)o, n, &s) : api_p_realloc((void *)o, n));
    ckkeep(0);
    if (!q) { for (int z = 0; z < 24; ++z) if (o[z] != (u8)(z * 3)) { FAIL("data", "failed realloc to %#lx damaged the block", n); break; } if (n <= ((size_t)100 << 20)) FAIL("null", "realloc to %lu failed although the system has memory", n); api_c_free[0].fn((void *)o, &s); }
    else { for (int z = 0; z < 24 && (size_t)z < n; ++z) if (q[z] != (u8)(z * 3)) { FAIL("data", "realloc to %#lx lost contents", n); break; } judge_huge("realloc", (up)q, n, eff_align(0, n, 0)); api_c_free[0].fn((void *)q, &s); }
  }
  ckkeep(1);
}
static void callocs(void) {
  static size_t G[400]; int ng = 0; long id = 0;
  mkkeep();
  static const size_t small[] = {1, 2, 3, 5, 7, 8, 16, 24, 255, 256, 1000, 4095, 4096, 4097};
  for (unsigned i = 0; i < sizeof small / sizeof *small; ++i) G[ng++] = small[i];
  for (int k = 13; k < 64; ++k) for (long d = -1; d <= 1; ++d) G[ng++] = ((size_t)1 << k) + (size_t)d;
  for (size_t j = 0; j < 20; ++j) G[ng++] = ~(size_t)0 - j;
  for (int i = 0; i < ng; ++i) for (int j = 0; j < ng + 8 && !enough(); ++j) for (int m = 0; m < 2; ++m) {
    size_t a = G[i], b;
    if (j < ng) b = G[j];
    else { /* products just beyond 2^64 that wrap to something small */ if (a < 2) continue; b = (size_t)((((unsigned __int128)1 << 64) + a - 1) / a) + (size_t)(j - ng) / 2; if ((j - ng) & 1) { size_t t = a; a = b; b = t; } }
    if (!b || id++ % nshards != shardi) continue;
    unsigned __int128 want = (unsigned __int128)a * b;
    if (want > (1 << 22) && want < (unsigned __int128)os_limit + (1 << 20)) continue;
    CASE("%s calloc(%#lx, %#lx)", m ? "m" : "p", a, b);
    up p = (up)(m ? api_m_calloc2(a, b) : api_p_calloc2(a, b));
    ckkeep(0);
    if (!p) { if (want <= (1 << 26)) FAIL("null", "calloc(%lu, %lu) failed although the system has memory", a, b); continue; }
    if (want > (unsigned __int128)os_limit) { FAIL("undersized", "calloc(%#lx, %#lx) returned a block of %lu bytes", a, b, api_m_usable((void *)p)); continue; }
    judge_huge("calloc", p, want, eff_align(0, (size_t)want, 0));
    struct Src s; api_c_free[0].fn((void *)p, &s);
    hx_seen(hx_mix(3, (u64)want));
  }
  ckkeep(1);
}

/* ------------------------------------------------------------------ memory and string functions */
static const char *fname[M_NFN] = {"memcpy", "memmove", "strcpy", "strncpy", "strcat", "strncat"};
static sigjmp_buf jb; static volatile sig_atomic_t armed;
static void onill(int s) { (void)s; if (armed) { armed = 0; siglongjmp(jb, 2); } hx_sys3(SYS_exit_group, 97, 0, 0); }
static void onsegv2(int s) { if (hx_probing) { hx_probing = 0; siglongjmp(hx_jb, 1); } if (armed) { armed = 0; siglongjmp(jb, 3); } signal(s, SIG_DFL); }
/* 0 returned (ret), 1 overlap abort, 2 other abort, 3 fault */
static void *lastret;
static int call(memfn f, void *d, const void *s, size_t n) {
  int r = sigsetjmp(jb, 1);
  if (r == 0) { armed = 1; lastret = f(d, s, n); armed = 0; return 0; }
  return r;
}
static u8 *arena(size_t pages) { /* pages rw between two inaccessible pages */
  u8 *a = (u8 *)__real_mmap(0, (pages + 2) * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(a, PG, PROT_NONE); mprotect(a + (pages + 1) * PG, PG, PROT_NONE);
  return a + PG;
}
static u8 ref[3 * 4096];
static size_t rstrlen(const u8 *s) { size_t n = 0; while (s[n]) ++n; return n; }
/* reference on separate regions: result in ref (dlen bytes that may change start at d) */
static size_t reference(int f, const u8 *d0, size_t cap, const u8 *s, size_t n) {
  for (size_t i = 0; i < cap; ++i) ref[i] = d0[i];
  size_t i, k;
  switch (f) {
  case M_MEMCPY: case M_MEMMOVE: for (i = 0; i < n; ++i) ref[i] = s[i]; return n;
  case M_STRCPY: for (i = 0;; ++i) { ref[i] = s[i]; if (!s[i]) break; } return i + 1;
  case M_STRNCPY: for (i = 0; i < n && s[i]; ++i) ref[i] = s[i]; for (; i < n; ++i) ref[i] = 0; return n;
  case M_STRCAT: k = rstrlen(ref); for (i = 0;; ++i) { ref[k + i] = s[i]; if (!s[i]) break; } return k + i + 1;
  default: if (n == 0) return 0; k = rstrlen(ref); for (i = 0; i < n && s[i]; ++i) ref[k + i] = s[i]; ref[k + i] = 0; return k + i + 1;
  }
}
/* separate regions; source ends / starts exactly at an inaccessible page, destination likewise */
static void memmode(long max, long pats) {
  u8 *D = arena(2), *S = arena(2); long id = 0;
  for (int f = 0; f < M_NFN; ++f) for (long sl = 0; sl <= max; ++sl) for (long n = 0; n <= (f == M_MEMCPY || f == M_MEMMOVE ? 0 : f == M_STRCPY || f == M_STRCAT ? 0 : max); ++n) for (long dl = 0; dl <= (f >= M_STRCAT ? (max < 10 ? max : 10) : 0); ++dl) {
    if (id++ % nshards != shardi) continue;
    if (enough()) return;
    /* sl: source length (mem: byte count); n: limit; dl: length of the destination string */
    size_t cnt = f <= M_MEMMOVE ? (size_t)sl : (size_t)n;
    int needs_nul = !(f <= M_MEMMOVE) && !((f == M_STRNCPY || f == M_STRNCAT) && n <= sl);
    size_t sbytes = f <= M_MEMMOVE ? (size_t)sl : needs_nul ? (size_t)sl + 1 : (size_t)n; /* bytes that may be read */
    if (f == M_STRNCAT && n == 0) sbytes = 0;
    for (int spos = 0; spos < 3; ++spos) for (int dpos = 0; dpos < 3; ++dpos) for (int api = 0; api < APIS; ++api) for (int pat = 0; pat < pats; ++pat) {
      u8 *s = spos == 0 ? S + 2 * PG - sbytes : spos == 1 ? S : S + 5 + (sl & 7);
      for (size_t i = 0; i < sbytes; ++i) s[i] = (u8)(pat ? 0x80 + (i * 5 + 1) % 0x7f : 1 + (i * 3 + 64) % 126);
      if (f <= M_MEMMOVE && pat && sbytes) for (size_t i = 0; i < sbytes; i += 3) s[i] = 0;
      if (needs_nul && sbytes) s[sl] = 0;
      u8 tmp[64]; for (int i = 0; i < 64; ++i) tmp[i] = (u8)(0xc1 + i);
      if (f >= M_STRCAT && dl < 64) { for (long i = 0; i < dl; ++i) tmp[i] = (u8)('A' + i); tmp[dl] = 0; }
      /* size of what is written */
      static u8 d0[4096]; for (int i = 0; i < 64; ++i) d0[i] = tmp[i]; for (int i = 64; i < 400; ++i) d0[i] = (u8)(i * 11);
      if (max > 300) continue;
      size_t w = reference(f, d0, 700 > sizeof d0 ? sizeof d0 : 700, s, cnt);
      size_t dbytes = w > (f >= M_STRCAT ? (size_t)dl + 1 : 0) ? w : (f >= M_STRCAT ? (size_t)dl + 1 : 0); /* bytes of dest that may be touched */
      if (f == M_STRNCAT && n == 0) dbytes = (size_t)dl + 1;
      u8 *d = dpos == 0 ? D + 2 * PG - dbytes : dpos == 1 ? D : D + 64 + 3;
      size_t before = (size_t)(d - D) < 64 ? (size_t)(d - D) : 64, afterb = (size_t)(D + 2 * PG - d) < dbytes + 64 ? (size_t)(D + 2 * PG - d) - dbytes : 64;
      for (size_t i = 1; i <= before; ++i) d[-(long)i] = (u8)(0x5a + i);
      for (size_t i = 0; i < dbytes + afterb; ++i) d[i] = d0[i];
      reference(f, d, dbytes + afterb, s, cnt);
      CASE("%s %s srclen %ld n %ld destlen %ld srcpos %d destpos %d bytes %d", api ? "plain" : "macro", fname[f], sl, (long)cnt, dl, spos, dpos, pat);
      int r = call(api ? api_mem_p[f] : api_mem_m[f], d, s, cnt);
      if (r == 3) { FAIL("memfault", "%s touches memory beyond its arguments", curops); continue; }
      if (r) { FAIL("overlap", "%s aborts although nothing overlaps", curops); continue; }
      if (lastret != d) FAIL("memres", "%s returns %p, not dest %p", curops, lastret, (void *)d);
      for (size_t i = 0; i < dbytes + afterb; ++i) if (d[i] != ref[i]) { FAIL("memres", "%s: byte %lu is %02x, expected %02x", curops, i, d[i], ref[i]); break; }
      for (size_t i = 1; i <= before; ++i) if (d[-(long)i] != (u8)(0x5a + i)) { FAIL("memres", "%s: byte -%lu before dest changed", curops, i); break; }
      for (size_t i = 0; i < sbytes; ++i) { u8 e = (u8)(pat ? 0x80 + (i * 5 + 1) % 0x7f : 1 + (i * 3 + 64) % 126); if (f <= M_MEMMOVE && pat && i % 3 == 0) e = 0; if (needs_nul && i == (size_t)sl) e = 0; if (s[i] != e) { FAIL("memres", "%s: source byte %lu changed", curops, i); break; } }
      hx_seen(hx_mix((u64)f * 8192 + (u64)sl, (u64)n * 64 + (u64)dl));
    }
  }
  /* strdup */
  for (long sl = 0; sl <= max; ++sl) for (int spos = 0; spos < 2; ++spos) for (int api = 0; api < APIS; ++api) {
    if (id++ % nshards != shardi || enough()) continue;
    u8 *s = spos ? S : S + 2 * PG - sl - 1; struct Src z;
    for (long i = 0; i < sl; ++i) s[i] = (u8)(1 + (i * 7) % 255); s[sl] = 0;
    CASE("%s strdup length %ld pos %d", api ? "plain" : "macro", sl, spos);
    int r = sigsetjmp(jb, 1); u8 *p = 0;
    if (!r) { armed = 1; p = (u8 *)(api ? api_strdup_p((char *)s) : api_strdup_m((char *)s)); armed = 0; }
    if (r) { FAIL("memfault", "%s dies", curops); continue; }
    for (long i = 0; i <= sl; ++i) if (p[i] != s[i]) { FAIL("memres", "%s: byte %ld differs", curops, i); break; }
    if (api_m_usable(p) != (size_t)sl + 1) FAIL("memres", "%s: usable size %lu", curops, api_m_usable(p));
    api_c_free[0].fn(p, &z);
  }
}
/* large counts: every n around the page and power-of-two sizes, up to max */
static void edgemode(long max) {
  size_t pages = ((size_t)max + 2) * 3 / 2 / PG + 3; u8 *D = arena(pages), *S = arena(pages), *M = (u8 *)hx_mmap_shared(pages * PG); long id = 0;
  static long K[4000]; int nk = 0;
  for (long k = 1; k <= max; k = k < 64 ? k + 1 : k + k / 16) K[nk++] = k;
  for (long k = 64; k < max; k = k < 4096 ? 2 * k : k < 8 * 4096 ? k + 4096 : 2 * k) for (int j = -1; j < 2; ++j) K[nk++] = k + j; /* whole pages, powers of two */
  for (int ki = 0; ki < nk; ++ki) for (int f = 0; f < M_NFN; ++f) for (int e = 0; e < 4; ++e) for (int v = 0; v < 2; ++v) for (int api = 0; api < APIS; ++api) {
    if (v && f != M_STRNCPY && f != M_STRCAT && f != M_STRNCAT) continue;
    if (id++ % nshards != shardi || enough()) continue;
    /* v: the source of strncpy ends half-way; something to append to */
    size_t n = (size_t)K[ki], pre = v && f != M_STRNCPY ? n / 3 : 0, half = v && f == M_STRNCPY ? n / 2 : n, all = pages * PG;
    u8 *s = e & 1 ? S : S + all - n, *d = e & 2 ? D : D + all - n - pre;
    for (size_t i = 0; i < n; ++i) s[i] = (u8)(1 + i % 251);
    for (size_t i = 0; i < all; ++i) D[i] = M[i] = 0xee;
    if (f == M_STRCPY || f == M_STRCAT) s[n - 1] = 0;
    if (half < n) { s[half] = 0; if (!(e & 1)) { for (size_t i = 0; i <= half; ++i) S[all - half - 1 + i] = half == i ? 0 : (u8)(1 + i % 251); s = S + all - half - 1; } }
    if (f == M_STRCAT || f == M_STRNCAT) { for (size_t i = 0; i < pre; ++i) d[i] = M[d - D + (long)i] = 0x33; d[pre] = 0; }
    for (size_t i = 0; i < n; ++i) M[d - D + (long)(pre + i)] = i > half ? 0 : s[i];
    if (f == M_STRNCAT) M[d - D + (long)(pre + n - 1)] = 0;
    size_t cnt = f == M_STRNCAT ? n - 1 : n;
    CASE("%s %s n %lu edge %d form %d", api ? "plain" : "macro", fname[f], n, e, v);
    int r = call(api ? api_mem_p[f] : api_mem_m[f], d, s, cnt);
    if (r == 3) { FAIL("memfault", "%s touches memory beyond its arguments", curops); continue; }
    if (r) { FAIL("overlap", "%s aborts although nothing overlaps", curops); continue; }
    if (lastret != d) FAIL("memres", "%s: wrong return value", curops);
    for (size_t i = 0; i < all; ++i) if (D[i] != M[i]) { FAIL("memres", "%s: byte %ld is %02x, expected %02x", curops, (long)(D + i - d), D[i], M[i]); break; }
  }
}
/* one shared arena: overlap must be reported exactly */
static u64 ov_aborts, ov_ok, ov_clean;
static void overlap1(u8 *A, long asz, int f, long so, long dd, long sl, long n, long dl, int api, int allowed) {
  static u8 base[16384], exp[16384];
    /* contents: distinct non-zero bytes, then the terminators */
    for (long i = 0; i < asz; ++i) base[i] = (u8)(asz < 60 ? 0x41 + i * 3 : 1 + (i * 7 + i / 251) % 255);
    if (f <= M_MEMMOVE) { if (dd + sl > asz) return; }
    else {
      if (so + sl >= asz) { if (f == M_STRNCPY || f == M_STRNCAT) { if (n > sl) return; } else return; }
      else base[so + sl] = 0;
      if (f >= M_STRCAT) { if (dd + dl >= asz) return; base[dd + dl] = 0; }
      /* the terminators may shorten the other string; skip duplicates */
      long l = 0; while (so + l < asz && base[so + l]) ++l; if (l != sl) return;
      if (f >= M_STRCAT) { l = 0; while (dd + l < asz && base[dd + l]) ++l; if (l != dl) return; }
    }
    long cnt = f <= M_MEMMOVE ? sl : n;
    /* bytes read and written by the definition of the function */
    long rlen = f <= M_MEMMOVE ? sl : f == M_STRNCPY || f == M_STRNCAT ? (n <= sl ? n : sl + 1) : sl + 1;
    long wofs = f >= M_STRCAT ? dd + dl : dd;
    long wlen = f <= M_MEMMOVE ? sl : f == M_STRCPY || f == M_STRCAT ? sl + 1 : f == M_STRNCPY ? n : (n == 0 ? 0 : (n < sl ? n : sl) + 1);
    if (wofs + wlen > asz) return;
    /* a byte of the source is overwritten before it is read: forward order of the standard definition */
    int must = 0, mayoverlap;
    long whole_lo = dd, whole_hi = wofs + wlen;          /* the destination array the call is about */
    long src_hi = so + rlen;
    if (f == M_STRNCPY || f == M_STRNCAT) src_hi = so + (sl < n ? sl + 1 : n + 1);
    mayoverlap = (so < whole_hi && whole_lo < src_hi);
    if (f == M_MEMCPY) { int ov = sl > 0 && so < dd + sl && dd < so + sl && so != dd; must = ov && (!allowed || so < dd); mayoverlap = ov && !must ? 0 : (sl > 0 && so == dd); if (ov && allowed && dd < so) mayoverlap = 0; }
    else if (f == M_MEMMOVE) { must = 0; mayoverlap = 0; }
    else if (wlen > 0) {
      /* copying byte i writes wofs+i after reading so+i: source byte so+j, j>i, is hit at i = so+j-wofs */
      long copied = f == M_STRNCPY ? (sl < n ? sl : n) : f == M_STRNCAT ? (sl < n ? sl : n) : sl + 1;
      long readmax = f == M_STRNCPY || f == M_STRNCAT ? (sl < n ? sl + 1 : n) : sl + 1;
      for (long i = 0; i < copied; ++i) { long j = wofs + i - so; if (j > i && j < readmax) must = 1; }
    }
    for (long i = 0; i < asz; ++i) { A[i] = base[i]; exp[i] = base[i]; }
    if (f <= M_MEMMOVE) for (long i = 0; i < sl; ++i) exp[dd + i] = base[so + i];
    else if (wlen > 0) {
      long c = f == M_STRNCPY || f == M_STRNCAT ? (sl < n ? sl : n) : sl;
      for (long i = 0; i < c; ++i) exp[wofs + i] = base[so + i];
      for (long i = c; i < wlen; ++i) exp[wofs + i] = 0;
    }
    CASE("%s %s dest+%ld src+%ld srclen %ld n %ld destlen %ld", api ? "plain" : "macro", fname[f], dd, so, sl, n, dl);
    hx_clear(capfd);
    int r = call(api ? api_mem_p[f] : api_mem_m[f], A + dd, A + so, (size_t)cnt);
    if (r == 3) { FAIL(must ? "overlap" : "memfault", "%s touches memory beyond its arguments", curops); return; }
    if (must) {
      ++ov_aborts;
      if (r != 2) { FAIL("overlap", "%s: overlapping copy is not reported", curops); return; }
      const char *t = hx_readcap(capfd); char nm[24]; snprintf(nm, sizeof nm, "%s(", fname[f]);
      if (!hx_find(t, "DUMA Abort") || !hx_find(t, nm) || !hx_find(t, "overlap")) FAIL("overlap", "%s: report does not name the function: %s", curops, t);
      char pl[40]; snprintf(pl, sizeof pl, "%lx", (unsigned long)(up)(A + dd)); if (!hx_find(t, pl)) FAIL("overlap", "%s: report does not show the destination: %s", curops, t);
#ifndef DUMA_NO_LEAKDETECTION
      if (!api && !(hx_find(t, "gamma_mem.c"))) FAIL("overlap", "%s: report does not show the source position: %s", curops, t);
#endif
      return;
    }
    if (r == 2) { if (!mayoverlap) FAIL("overlap", "%s: reported as overlapping: %s", curops, hx_readcap(capfd)); else ++ov_ok; return; }
    ++ov_clean;
    if (lastret != A + dd) FAIL("memres", "%s: wrong return value", curops);
    if (f == M_MEMCPY || f == M_MEMMOVE || !mayoverlap || 1) for (long i = 0; i < asz; ++i) if (A[i] != exp[i]) { FAIL("memres", "%s: byte %ld is %02x, expected %02x", curops, i, A[i], exp[i]); break; }
}
/* every pair of offsets, lengths and limits */
static void overlapmode(long asz, long max, int allowed) {
  u8 *P = arena(1); long id = 0;
  for (int side = 0; side < 2; ++side) { /* the arena ends / begins at an inaccessible page */
  u8 *A = side ? P : P + PG - asz;
  for (int f = 0; f < M_NFN; ++f) for (long so = 0; so <= asz; ++so) for (long dd = 0; dd <= asz; ++dd) for (long sl = 0; sl <= max && so + sl <= asz; ++sl) for (long n = 0; n <= (f == M_STRNCPY || f == M_STRNCAT ? max : 0); ++n) for (long dl = 0; dl <= (f >= M_STRCAT ? max : 0); ++dl) for (int api = 0; api < APIS; ++api) {
    if (id++ % nshards != shardi) continue;
    if (enough()) return;
    overlap1(A, asz, f, so, dd, sl, n, dl, api, allowed);
  }}
  sh->aux[0] = ov_aborts; sh->aux[1] = ov_ok; sh->aux[2] = ov_clean;
  hx_seen(ov_aborts); hx_seen(ov_clean + 77);
}
/* longer regions: every distance between source and destination */
static void shiftmode(long max, int allowed) {
  static const long more[] = {127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 2048, 4095, 4096, 4097, 5000};
  u8 *P = arena(4); long id = 0;
  for (long k = 0; k <= max + (long)(sizeof more / sizeof *more); ++k) {
    long sl = k <= max ? k : more[k - max - 1], asz = sl <= max ? 3 * sl + 64 : 2 * sl + 200;
    for (int f = 0; f < M_NFN; ++f) for (long dist = -sl - 14; dist <= sl + 3; ++dist) {
      long ad = dist < 0 ? -dist : dist;
      if (sl > max && !(ad < 20 || (ad > 29 && ad < 35) || (ad > 61 && ad < 67) || (ad > 250 && ad < 260) || (ad > 4090 && ad < 4100) || (ad > sl - 3 && ad < sl + 3))) continue;
      if (id++ % nshards != shardi) continue;
      for (int side = 0; side < 3; ++side) for (int lim = 0; lim < (f == M_STRNCPY || f == M_STRNCAT ? 4 : 1); ++lim) for (int dls = 0; dls < (f >= M_STRCAT ? 3 : 1); ++dls) for (int api = 0; api < APIS; ++api) {
        if (enough()) return;
        u8 *A = side == 0 ? P : side == 1 ? P + 4 * PG - asz : P + 3;
        long so = dist < 0 ? -dist + (side == 2 ? 5 : 0) : side == 2 ? 1 : 0, dd = so + dist, n = lim == 0 ? sl - 1 : lim == 1 ? sl : lim == 2 ? sl + 1 : sl + 9, dl = dls == 0 ? 0 : dls == 1 ? 1 : 9;
        if (n < 0 || so + sl > asz || dd > asz) continue;
        overlap1(A, asz, f, so, dd, sl, f == M_STRNCPY || f == M_STRNCAT ? n : 0, f >= M_STRCAT ? dl : 0, api, allowed);
        hx_seen(hx_mix((u64)f * 8192 + (u64)sl, (u64)(dist + 9000)));
      }
    }
  }
  sh->aux[0] = ov_aborts; sh->aux[1] = ov_ok; sh->aux[2] = ov_clean;
}
static void bigmode(int fi, int api) { /* more than 4 GB, through aliases of one 2 MB file */
  size_t n = ((size_t)4 << 30) + 12345, chunk = 2 << 20; int fd1 = (int)hx_memfd(), fd2 = (int)hx_memfd(); ftruncate(fd1, (off_t)chunk); ftruncate(fd2, (off_t)chunk);
  size_t tot = (n + 2 * chunk) & ~(chunk - 1);
  u8 *S = (u8 *)__real_mmap(0, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), *D = (u8 *)__real_mmap(0, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (size_t o = 0; o < tot; o += chunk) { __real_mmap(S + o, chunk, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd1, 0); __real_mmap(D + o, chunk, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd2, 0); }
  /* the last chunk is private, so that the end can be told apart */
  size_t lastc = (n / chunk) * chunk;
  S = S; __real_mmap(S + lastc, chunk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0); __real_mmap(D + lastc, chunk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
  for (size_t i = 0; i < chunk; ++i) S[i] = (u8)(1 + i % 253);
  for (size_t i = lastc; i < n; ++i) S[i] = (u8)(1 + i % 251);
  CASE("%s %s of %lu bytes", api ? "plain" : "macro", fname[fi], n);
  if (fi != M_MEMCPY && fi != M_MEMMOVE) S[n - 1] = 0;
  if (fi >= M_STRCAT) D[0] = 0;
  alarm(200);
  int r = call(api ? api_mem_p[fi] : api_mem_m[fi], D, S, n);
  if (r || lastret != D) { FAIL("memres", "%s failed (%d)", curops, r); return; }
  for (size_t i = lastc; i < n; ++i) if (D[i] != S[i]) { FAIL("memres", "%s: byte %lu not copied", curops, i); break; }
  for (size_t i = n; i < n + 100; ++i) if (D[i]) { FAIL("memres", "%s: byte %lu beyond the end written", curops, i); break; }
  hx_seen(n + (u64)fi);
}
/* every accessible byte around a block that is not the block: any change must be reported, by every way of checking */
static struct { up p; size_t n; int k, how; } sv;
static void slackact(void) {
  struct Src z;
  switch (sv.how) {
  case 0: api_check((void *)sv.p); break;
  case 1: api_checkall(); break;
  case 2: fr_of[sv.k]->fn((void *)sv.p, &z); break;
  case 3: (void)api_m_realloc((void *)sv.p, sv.n + 1, &z); break;
  case 4: (void)api_p_realloc((void *)sv.p, 1); break;
  }
}
static int slackcall(void) { int r = sigsetjmp(jb, 1); if (!r) { armed = 1; slackact(); armed = 0; return 0; } return r; }
static void slack1(int k, size_t n, size_t al, int below, long edge) {
  static const char *hn[] = {"block check", "check of all", "release", "realloc", "plain realloc"};
  struct Src s = {0, 0}; const struct AllocApi *a = ifs[k];
  if (a->fill == 2) { if (n > sizeof strsrc) return; for (size_t i = 0; i + 1 < n; ++i) strsrc[i] = (char)('a' + i % 23); strsrc[n - 1] = 0; api_str = strsrc; }
  api_set_below(below); cf.below = below;
  CASE("%s:%lu:%lu %s align=%ld", a->name, n, al, below ? "below" : "above", cf.align);
  api_err = 0;
  up p = (up)a->fn(n, al, &s);
  if (!p || api_err) { FAIL("null", "%s failed", curops); return; }
  api_check((void *)p); api_checkall();
  hx_snapshot_cur();
  /* the accessible run around the block */
  up lo = pgdn(p), hi = pgup(p + n);
  while (hx_any_acc(lo - PG, lo)) lo -= PG;
  while (hx_any_acc(hi, hi + PG)) hi += PG;
  up ea = eff_align(a, n, al);
  if (hi - lo > pgup(n) + PG + (ea > PG ? ea : 0)) { FAIL("slack", "%s: %lu accessible bytes around the block", curops, hi - lo); return; }
  for (up x = lo; x < hi && !enough(); ++x) {
    if (x >= p && x < p + n) { x = p + n - 1; continue; }
    volatile u8 *q = (volatile u8 *)x; u8 old = *q;
    size_t dist = x < p ? p - 1 - x : x - p - n; /* distance from the block */
    int near = (long)dist < edge || (x & (PG - 1)) < 2 || (x & (PG - 1)) >= PG - 2 || x == lo || x == hi - 1;
    for (int how = 0; how < 5; ++how) {
      if (how >= 2 && !near) continue;
      if (how >= 3 && a->fam != FAM_C) continue;
      snprintf((char *)sh->sample[7], 500, "%s:%lu:%lu %s align=%ld byte %+ld changed, %s", a->name, n, al, below ? "below" : "above", cf.align, (long)(x < p ? x - p : x - p - n), hn[how]);
      hx_cpy(curops, (char *)sh->sample[7], sizeof curops); hx_add(&sh->transitions, 1);
      *q = (u8)(old ^ (how == 1 ? 1 : 0x80));
      sv.p = p; sv.n = n; sv.k = k; sv.how = how;
      hx_clear(capfd);
      int r;
      if (how < 2) r = slackcall();
      else { int pid = fork(); if (!pid) { signal(SIGILL, SIG_DFL); signal(SIGSEGV, SIG_DFL); alarm(20); slackact(); hx_sys3(SYS_exit_group, 0, 0, 0); } int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ; r = WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : 2; hx_add(&sh->deaths, 1); }
      *q = old;
      if (r == 0) { FAIL("detect", "%s: not reported (block %#lx)", curops, p); break; }
      const char *t = hx_readcap(capfd); char w[400];
      if (r != 2 || !hx_find(t, "DUMA Abort")) { FAIL("diag", "%s: no diagnostic: %s", curops, t); break; }
      snprintf(w, sizeof w, "%lx", p); if (!hx_find(t, w)) { FAIL("diag", "%s: report does not name the block %s: %s", curops, w, t); break; }
      snprintf(w, sizeof w, "%lu", n); if (!hx_find(t, w)) { FAIL("diag", "%s: report does not name the size %s: %s", curops, w, t); break; }
      if (a->src) { snprintf(w, sizeof w, "%s", s.file); if (!hx_find(t, w)) { FAIL("diag", "%s: report does not name the file %s: %s", curops, w, t); break; } snprintf(w, sizeof w, "%d", s.line); if (!hx_find(t, w)) { FAIL("diag", "%s: report does not name the line %s: %s", curops, w, t); break; } }
    }
  }
  api_check((void *)p); api_checkall(); /* everything restored: silent */
  fr_of[k]->fn((void *)p, &s);
  hx_seen(hx_mix(hx_mix(n, al), (u64)k * 2 + (u64)below));
}
static void slackmode(const char *als, long big, long edge) {
  static const size_t N[] = {1, 2, 3, 7, 8, 15, 24, 100, 4079, 4095, 4096, 4097, 5000, 8191, 8192, 12289};
  long al[16]; int na = 0; long id = 0;
  while (*als && na < 16) { al[na++] = hx_num(als); while (*als && *als != ',') ++als; if (*als) ++als; }
  load_ifs(1, 1, 0);
  for (int b = 0; b < 2; ++b) for (unsigned i = 0; i < sizeof N / sizeof *N; ++i) for (int k = 0; k < nifs && !enough(); ++k)
    if (ifs[k]->aligned == 1) { for (int j = 0; j < na; ++j) { if (hx_find(ifs[k]->name, "posix") && al[j] < 8) continue; if (al[j] >= big && N[i] != 1 && N[i] != 5000 && N[i] != 4096) continue; if (id++ % nshards == shardi) slack1(k, N[i], (size_t)al[j], b, edge); } }
    else if (id++ % nshards == shardi) slack1(k, N[i], 0, b, edge);
}
static void pre(int argc, char **argv, char **envp) { (void)argc; (void)argv; (void)envp; sh = (struct Shared *)hx_mmap_shared(sizeof *sh); hx_snapshot_base(); }
__attribute__((section(".preinit_array"), used)) static void (*pre_p)(int, char **, char **) = pre;
int main(int argc, char **argv, char **envp) {
  const char *mode = argc > 1 ? argv[1] : "", *als = "8,16,64,256,4096,8192", *which = "all"; long lo = 1, hi = 100, step = 1, max = 20, asz = 12, fi = 0, api = 0, tmo = 800;
  cf.align = envn(envp, "DUMA_ALIGNMENT", 1); if (!cf.align) cf.align = 1;
  cf.below = envn(envp, "DUMA_PROTECT_BELOW", 0) != 0; cf.fill = envn(envp, "DUMA_FILL", 255); if (cf.fill != -1) cf.fill &= 255;
  cf.slack = envn(envp, "DUMA_SLACKFILL", 0xaa) & 255; cf.pfree = envn(envp, "DUMA_PROTECT_FREE", -1); cf.failexit = envn(envp, "DUMA_MALLOC_FAILEXIT", 1);
  for (int i = 2; i < argc; ++i) {
    char *a = argv[i];
    if (hx_pre(a, "shard=")) shardi = (int)hx_num(a + 6);
    else if (hx_pre(a, "nshards=")) nshards = (int)hx_num(a + 8);
    else if (hx_pre(a, "lo=")) lo = hx_num(a + 3);
    else if (hx_pre(a, "hi=")) hi = hx_num(a + 3);
    else if (hx_pre(a, "step=")) step = hx_num(a + 5);
    else if (hx_pre(a, "al=")) als = a + 3;
    else if (hx_pre(a, "ifs=")) which = a + 4;
    else if (hx_pre(a, "max=")) max = hx_num(a + 4);
    else if (hx_pre(a, "arena=")) asz = hx_num(a + 6);
    else if (hx_pre(a, "fn=")) fi = hx_num(a + 3);
    else if (hx_pre(a, "api=")) api = hx_num(a + 4);
    else if (hx_pre(a, "tmo=")) tmo = hx_num(a + 4);
    else if (hx_pre(a, "states=")) ;
    else hx_fatal(a);
  }
  capfd = (int)hx_memfd();
  int cap2 = (int)hx_memfd();
  hx_clear(cap2);
  int pid = fork();
  if (!pid) {
    alarm((unsigned)tmo);
    api_init();
    hx_install_segv();
    dup2(cap2, 2);
    if (hx_eq(mode, "sizes")) { load_ifs(!hx_eq(which, "x"), !hx_eq(which, "c"), 0); sizes(lo, hi, step, als); }
    else if (hx_eq(mode, "realloc")) reallocs(max, asz);
    else if (hx_eq(mode, "align")) aligns();
    else if (hx_eq(mode, "huge")) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); huge(); }
    else if (hx_eq(mode, "calloc")) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); callocs(); }
    else {
      struct sigaction sa; for (size_t i = 0; i < sizeof sa; ++i) ((volatile u8 *)&sa)[i] = 0;
      sa.sa_handler = onill; sa.sa_flags = SA_NODEFER; sigaction(SIGILL, &sa, 0);
      sa.sa_handler = onsegv2; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
      dup2(capfd, 2);
      struct Src s; void *p = api_c_alloc[0].fn(1, 0, &s); api_c_free[0].fn(p, &s); /* the library is initialised */
      if (hx_eq(mode, "mem")) memmode(max, 2);
      else if (hx_eq(mode, "slack")) slackmode(als, max, asz);
      else if (hx_eq(mode, "edge")) edgemode(max);
      else if (hx_eq(mode, "overlap")) overlapmode(asz, max, envn(envp, "DUMA_MEMCPY_OVERLAP", 0) != 0);
      else if (hx_eq(mode, "shift")) shiftmode(max, envn(envp, "DUMA_MEMCPY_OVERLAP", 0) != 0);
      else if (hx_eq(mode, "big")) bigmode((int)fi, (int)api);
      else hx_fatal(mode);
    }
    hx_add(&sh->histories, sh->transitions);
    hx_sys3(SYS_exit_group, 0, 0, 0);
  }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 99) return 99;
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    hx_cpy(curops, (char *)sh->sample[7], sizeof curops);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) FAIL("hang", "no end: %s", curops);
    else { const char *t = hx_readcap(cap2); if (!*t) t = hx_readcap(capfd); FAIL(hx_find(t, "DUMA Abort") ? "falsealarm" : "crash", "process ended (%s %d) in %s: %.200s", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), curops, t); }
  }
  hx_cpy(sh->sample[0], (char *)sh->sample[7], 500); sh->sampled = 1;
  hx_report(1);
  return sh->nviol ? 1 : 0;
}
