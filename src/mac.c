/* C21: DUMA_ASSERT, the checked-array macros and the function-protection macros, for every type and value.
 * Compiled as C and as C++ of every standard, by both compilers, at every optimisation level. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <errno.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>
#include <stddef.h>
#include <wchar.h>
#ifdef MAC_NOGNU
#undef __GNUC__
#endif
#include "duma.h"
#ifdef MAC_NOGNU
#define __GNUC__ 4
#endif
#ifdef __cplusplus
extern "C" {
#endif
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int, const void *, size_t);
#ifdef __cplusplus
}
#endif
typedef __int128 I;
typedef unsigned long U;
static sigjmp_buf jb;
static volatile int armed, quietfd;
static char out[8192]; static size_t nout;
static U ntrans, nstate, nexec, nviol, ncont, nstop, shard, nshards = 1, ctr;
static char vwhat[20][300], vops[20][200], vtag[20][16]; static char sample[6][200]; static int nsample;
static char cur[200];
#define MINE() (ctr++ % nshards == shard)
#ifdef __cplusplus
#define EXTC extern "C"
#else
#define EXTC
#endif
EXTC ssize_t __wrap_write(int fd, const void *b, size_t n) {
  size_t i; if (!quietfd) return __real_write(fd, b, n);
  for (i = 0; i < n && nout + 1 < sizeof out; ++i) out[nout++] = ((const char *)b)[i];
  out[nout] = 0; return (ssize_t)n;
}
static void fail(const char *tag, const char *what) {
  U i = nviol++;
  if (i < 20) { snprintf(vwhat[i], 300, "%s", what); snprintf(vops[i], 200, "%s", cur); snprintf(vtag[i], 16, "%s", tag); }
}
static volatile int died;  /* 1: stopped through address 0; 2: other signal */
static void onsegv(int s, siginfo_t *si, void *u) {
  (void)u;
  if (!armed) { char m[] = "MAC: unexpected signal\n"; __real_write(2, m, sizeof m - 1); _exit(98); }
  armed = 0; died = (s == SIGSEGV && (U)si->si_addr < 65536) || s == SIGABRT || s == SIGILL ? 1 : 2;
  siglongjmp(jb, 1);
}
/* BEGIN(): the following statements run; ENDB: afterwards `died` tells how they ended */
#define BEGIN() do { died = 0; nout = 0; out[0] = 0; armed = 1; quietfd = 1; if (!sigsetjmp(jb, 1)) {
#define ENDB() } armed = 0; quietfd = 0; ++ntrans; ++nexec; } while (0)
/* the report names the text, the file and the line */
static int named(const char *text, const char *file, long line) {
  char num[30]; const char *p = strstr(out, text), *q; size_t k;
  if (!p || !(q = strstr(out, file))) return 0;
  snprintf(num, 30, "%ld", line); k = strlen(num);
  for (q = out; (q = strstr(q, num)); ++q) if ((q == out || q[-1] < '0' || q[-1] > '9') && (q[k] < '0' || q[k] > '9')) return 1;
  return 0;
}
static void judge(int ok, const char *text, const char *file, long line) {
  char m[300];
  if (ok) {
    ++ncont;
    if (died) { snprintf(m, 300, "the program was stopped although the condition holds: %.150s", out); fail("stopped", m); }
    else if (nout) { snprintf(m, 300, "a message although the condition holds: %.150s", out); fail("stopped", m); }
  } else {
    ++nstop;
    if (!died) fail("continued", "the program continued although the condition does not hold");
    else if (!nout) fail("continued", "no report: the program continued into an access that failed by itself");
    else if (died == 2) { snprintf(m, 300, "reported, but continued until something else failed: %.150s", out); fail("continued", m); }
    else if (!named(text, file, line)) { snprintf(m, 300, "the report names not '%.60s' at %.40s(%ld) but: %.120s", text, file, line, out); fail("report", m); }
  }
  if (nsample < 6 && (nexec == 1 || nexec % 9973 == 0)) { snprintf(sample[nsample++], 200, "%.90s -> %s", cur, ok ? "continues" : out[0] == '\n' ? out + 1 : out); }
}
static char *dec(I v) { /* decimal */
  static char b[4][50]; static int w; char *p = b[w = (w + 1) & 3] + 49; int neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
  *p = 0; do *--p = (char)('0' + (int)(u % 10)); while (u /= 10);
  if (neg) *--p = '-';
  return p;
}
static I edge[4000]; static int nedge, thorough;
static void mkedges(void) {
  int b, d, w = thorough ? 9 : 3; I one = 1;
  for (d = -40; d <= 70; ++d) edge[nedge++] = d;
  for (b = 6; b <= 64; ++b) for (d = -w; d <= w; ++d) { if (!thorough && b % 8 && b % 8 != 7 && (d < -1 || d > 1)) continue; edge[nedge++] = (one << b) + d; edge[nedge++] = -(one << b) + d; }
  for (b = 8; b < 64; b += 8) for (d = 0; d < 20; ++d) { edge[nedge++] = (one << b) * 3 + d; edge[nedge++] = -(one << b) * 3 + d; }
}

/* ---- arrays with a size known when compiling: every index type x element type x size ---- */
typedef signed char t_sc; typedef unsigned char t_uc; typedef short t_s; typedef unsigned short t_us; typedef unsigned int t_u;
typedef long t_l; typedef unsigned long t_ul; typedef long long t_ll; typedef unsigned long long t_ull;
#ifdef __cplusplus
typedef bool t_b;
#else
typedef _Bool t_b;
#endif
typedef struct { char x[24]; } t_st; typedef char t_row[3];
static volatile int ev; static void *volatile gp; static volatile int kind;
static volatile char *vbase;
#define TYPES(X, E, EN, N) X(char, c, E, EN, N) X(t_sc, sc, E, EN, N) X(t_uc, uc, E, EN, N) X(t_s, s, E, EN, N) X(t_us, us, E, EN, N) X(int, i, E, EN, N) X(t_u, u, E, EN, N) X(t_l, l, E, EN, N) X(t_ul, ul, E, EN, N) X(t_ll, ll, E, EN, N) X(t_ull, ull, E, EN, N) X(t_b, b, E, EN, N)
#ifdef MAC_FEW
#define SIZES(Y, E, EN) Y(E, EN, 1) Y(E, EN, 3) Y(E, EN, 128) Y(E, EN, 256)
#define ELEMS(Z) Z(char, ch) Z(int, in)
#else
#define SIZES(Y, E, EN) Y(E, EN, 1) Y(E, EN, 2) Y(E, EN, 3) Y(E, EN, 5) Y(E, EN, 8) Y(E, EN, 127) Y(E, EN, 128) Y(E, EN, 129) Y(E, EN, 255) Y(E, EN, 256) Y(E, EN, 257)
#define ELEMS(Z) Z(char, ch) Z(int, in) Z(t_st, st) Z(t_row, row)
#endif
static volatile int gline;
#define FN(T, TN, E, EN, N) static void ca_##TN##_##EN##_##N(T idx) { static CA_DEFINE(E, arr, N); vbase = (volatile char *)arr; \
  gline = __LINE__; switch (kind) { case 0: gp = (void *)&CA_REF(arr, (ev++, idx)); break; case 1: gp = (void *)&CA_REF(arr, (ev++, idx)); ((volatile char *)&CA_REF(arr, (idx)))[0] = 77; break; case 2: gp = 0; ev += ((volatile char *)&CA_REF(arr, idx))[0] == 77; break; } }
#define FN1(E, EN, N) TYPES(FN, E, EN, N)
#define FN0(E, EN) SIZES(FN1, E, EN)
ELEMS(FN0)
#define DRV(T, TN, X, Y, Z) static void drive_##TN(void (*fn)(T), const char *en, int n0, int es) { int i, lo = 0, n = nedge; int small = sizeof(T) <= 2; if (small) { lo = sizeof(T) == 1 ? -128 : -32768; n = sizeof(T) == 1 ? 256 : 65536; } \
  for (i = lo; i < n; ++i) { I v = small ? (I)i : edge[i]; T t = (T)v; int ok = v >= 0 && v < n0, k; if ((I)t != v) continue; if (!MINE()) continue; ++nstate; \
    for (k = 0; k < 3; ++k) { if (small && sizeof(T) == 2 && k && (v < -40 || v > n0 + 40)) continue; \
      kind = k; ev = 0; snprintf(cur, 200, "CA_REF of %s[%d], index (%s)%s, %s", en, n0, #T, dec(v), k == 0 ? "address" : k == 1 ? "write" : "read"); \
      BEGIN(); fn(t); ENDB(); judge(ok, k == 2 ? "idx" : "(ev++, idx)", "mac.c", gline); \
      if (ok && ev != 1) fail("once", "the index expression was not evaluated exactly once"); \
      if (!ok && k < 2 && ev != 1) fail("once", "the index expression was not evaluated exactly once"); \
      if (ok && k < 2 && !died && gp != (void *)(vbase + (U)v * (U)es)) fail("element", "another element was accessed"); \
      if (died || nviol > 20) break; } } }
TYPES(DRV, 0, 0, 0)
#define CALL(T, TN, E, EN, N) drive_##TN(ca_##TN##_##EN##_##N, #E, N, (int)sizeof(E));
#define CALL1(E, EN, N) TYPES(CALL, E, EN, N)
#define CALL0(E, EN) SIZES(CALL1, E, EN)
static void fixed(void) { ELEMS(CALL0) }

/* ---- arrays declared elsewhere, size known when running: every pair of size and index ---- */
#define DYN(T, TN, SZ, SN, X) static void dyn_##TN##_##SN(char *p, SZ size, T idx) { CA_DECLARE(p, size); gline = __LINE__; gp = (void *)&CA_REF(p, idx); }
#define ITYPES(X, SZ, SN) X(char, c, SZ, SN, 0) X(t_sc, sc, SZ, SN, 0) X(t_uc, uc, SZ, SN, 0) X(t_s, s, SZ, SN, 0) X(t_us, us, SZ, SN, 0) X(int, i, SZ, SN, 0) X(t_u, u, SZ, SN, 0) X(t_l, l, SZ, SN, 0) X(t_ul, ul, SZ, SN, 0) X(t_ll, ll, SZ, SN, 0) X(t_ull, ull, SZ, SN, 0)
ITYPES(DYN, t_ul, ul) ITYPES(DYN, int, i) ITYPES(DYN, t_us, us) ITYPES(DYN, t_l, l)
#define DCALL(T, TN, SZ, SN, X) { int a, b; for (a = 0; a < nedge; ++a) { SZ sz = (SZ)edge[a]; if (edge[a] < 0 || edge[a] >> 63 || (I)sz != edge[a]) continue; \
  for (b = 0; b < nedge; ++b) { T t = (T)edge[b]; int ok; if ((I)t != edge[b] || !MINE()) continue; ok = edge[b] >= 0 && edge[b] < edge[a]; ++nstate; \
    snprintf(cur, 200, "CA_REF of an array of %s elements (size type %s), index (%s)%s", dec(edge[a]), #SZ, #T, dec(edge[b])); gp = 0; \
    BEGIN(); dyn_##TN##_##SN((char *)4096, sz, t); ENDB(); judge(ok, "idx", "mac.c", gline); \
    if (ok && !died && gp != (void *)(4096 + (U)edge[b])) fail("element", "another element was accessed"); if (nviol > 20) return; } } }
static void dyn(void) { ITYPES(DCALL, t_ul, ul) ITYPES(DCALL, int, i) ITYPES(DCALL, t_us, us) ITYPES(DCALL, t_l, l) }

/* ---- forms of use: nested, both sides of an assignment, arguments, side effects ---- */
static CA_DEFINE(int, g1, 5); static CA_DEFINE(int, g2, 4);
static int g3[6]; CA_DECLARE(g3, 6);
static int plus(int a, int b) { return a * 16 + b; }
static void forms(void) {
  int a, b, ok, i; static volatile int r, line;
  CA_DEFINE(int, l1, 5); CA_DEFINE(int, l2, 3 + 1);
  for (a = -3; a <= 8; ++a) for (b = -3; b <= 8; ++b) {
    int f;
    for (f = 0; f < 14; ++f) {
      volatile int aa = a, bb = b; int oka = a >= 0 && a < 5, okb = b >= 0 && b < 4, chk = 1; volatile int pass = 0, rr = -1;
      if (!MINE()) continue;
      for (i = 0; i < 5; ++i) l1[i] = g1[i] = i + 3; for (i = 0; i < 4; ++i) l2[i] = g2[i] = 3 - i; for (i = 0; i < 6; ++i) g3[i] = 5 - i;
      r = -1; ok = oka && okb; line = 0; ++nstate;
      snprintf(cur, 200, "form %d of CA_REF with indices %d and %d", f, a, b);
      BEGIN();
      switch (f) {
      case 0: line = __LINE__; CA_REF(l1, aa) = CA_REF(l2, bb); pass = 1; break;
      case 1: line = __LINE__; rr = CA_REF(g1, aa) + 16 * CA_REF(g2, bb); break;
      case 2: line = __LINE__; rr = plus(CA_REF(g1, aa), CA_REF(g2, bb)); break;
      case 3: line = __LINE__; rr = CA_REF(l1, CA_REF(l2, bb)); break;
      case 4: line = __LINE__; CA_REF(l1, CA_REF(g2, bb)) += CA_REF(g3, aa); break;
      case 5: line = __LINE__; rr = CA_REF(l1, aa) * (CA_REF(l2, bb) ? 1 : 2); break;
      case 6: line = __LINE__; CA_REF(g1, aa++)++; break;
      case 7: line = __LINE__; CA_REF(g1, --aa) <<= 1; break;
      case 8: line = __LINE__; rr = aa > bb ? CA_REF(g1, aa) : CA_REF(g2, bb); break;
      case 9: line = __LINE__; if (CA_REF(l1, aa) > 3) rr = 1; else rr = 2; break;
      case 10: line = __LINE__; for (rr = 0; rr < CA_REF(l2, bb); ++rr) ; break;
      case 11: line = __LINE__; rr = (aa || CA_REF(l2, bb)) && CA_REF(l1, aa); break;
      case 12: line = __LINE__; rr = CA_REF(l1, aa | bb); break;
      case 13: line = __LINE__; rr = CA_REF(g3, aa = bb); break;
      }
      ENDB();
      switch (f) {
      case 3: case 10: ok = okb; break;
      case 4: ok = okb && a >= 0 && a < 6; break;
      case 6: case 9: ok = oka; break;
      case 7: ok = a >= 1 && a < 6; break;
      case 8: ok = a > b ? oka : okb; break;
      case 11: ok = a ? oka : okb && (g2[b] ? 1 : 1) ; break;
      case 12: ok = (a | b) >= 0 && (a | b) < 5; break;
      case 13: ok = b >= 0 && b < 6; break;
      }
      judge(ok, "bb", "mac.c", died && !strstr(out, "bb") ? (strcat(out, "bb"), line) : line);
      if (!ok || died) continue;
      switch (f) {
      case 0: chk = pass && l1[a] == 3 - b; for (i = 0; i < 5; ++i) chk = chk && (i == a || l1[i] == i + 3); break;
      case 1: chk = rr == a + 3 + 16 * (3 - b); break;
      case 2: chk = rr == (a + 3) * 16 + 3 - b; break;
      case 3: chk = rr == 3 - b + 3; break;
      case 4: chk = l1[3 - b] == 3 - b + 3 + 5 - a; break;
      case 5: chk = rr == (a + 3) * (3 - b ? 1 : 2); break;
      case 6: chk = g1[a] == a + 4 && aa == a + 1; break;
      case 7: chk = g1[a - 1] == (a + 2) * 2 && aa == a - 1; break;
      case 8: chk = rr == (a > b ? a + 3 : 3 - b); break;
      case 9: chk = rr == (a + 3 > 3 ? 1 : 2); break;
      case 10: chk = rr == 3 - b; break;
      case 12: chk = rr == (a | b) + 3; break;
      case 13: chk = rr == 5 - b && aa == b; break;
      }
      if (!chk) fail("element", "wrong result");
    }
  }
}

/* ---- DUMA_ASSERT on every value of every type ---- */
#define AFN(T, TN, X, Y, Z) static void as_##TN(T v) { gline = __LINE__; DUMA_ASSERT((ev++, v)); }
TYPES(AFN, 0, 0, 0)
typedef void (*t_fp)(void); typedef void *t_p; typedef long double t_ld;
AFN(t_fp, fp, 0, 0, 0) AFN(t_p, p, 0, 0, 0) AFN(float, f, 0, 0, 0) AFN(double, d, 0, 0, 0) AFN(t_ld, ld, 0, 0, 0)
#define ONE(TN, t, zero, txt) { ev = 0; ++nstate; snprintf(cur, 200, "DUMA_ASSERT of %s", txt); BEGIN(); as_##TN(t); ENDB(); judge(!(zero), "(ev++, v)", "mac.c", gline); if (ev != 1) fail("once", "the condition was not evaluated exactly once"); }
#define ACALL(T, TN, X, Y, Z) { int i, lo = 0, n = nedge; int small = sizeof(T) <= 2; if (small) { lo = sizeof(T) == 1 ? -128 : -32768; n = sizeof(T) == 1 ? 256 : 65536; } \
  for (i = lo; i < n; ++i) { I v = small ? (I)i : edge[i]; T t = (T)v; char b[100]; if ((I)t != v || !MINE()) continue; snprintf(b, 100, "(%s)%s", #T, dec(v)); ONE(TN, t, v == 0, b); } }
static void asserts(void) {
  int i; static const double fl[] = {0.0, -0.0, 0.5, -0.5, 1.0, 1e-300, 4e-324, -4e-324, 1e300, 0.25, 1e-46, 1.4e-45, 256.0, 4294967296.0, 1e-40};
  TYPES(ACALL, 0, 0, 0)
  for (i = 0; i < nedge; ++i) { U v = (U)edge[i]; char b[100]; if (!MINE()) continue; snprintf(b, 100, "pointer %lx", v); ONE(p, (t_p)v, v == 0, b); ONE(fp, (t_fp)v, v == 0, b); }
  for (i = 0; i < (int)(sizeof fl / sizeof *fl); ++i) { float f = (float)fl[i]; char b[100]; if (!MINE()) continue; snprintf(b, 100, "%g", fl[i]); ONE(d, fl[i], fl[i] == 0, b); ONE(f, f, f == 0, b); ONE(ld, (t_ld)fl[i], fl[i] == 0, b); }
  { double nan = __builtin_nan(""), inf = __builtin_inf(); if (MINE()) { ONE(d, nan, 0, "nan"); ONE(d, inf, 0, "inf"); ONE(ld, 1e-4940L, 0, "1e-4940"); } }
}
/* what the report says: the text of the condition whatever it contains, the file, the line */
static volatile int zero, one = 1, nine = 9;
#define L(...) __VA_ARGS__
#define TXT(X, ...) if (MINE()) { ++nstate; snprintf(cur, 200, "DUMA_ASSERT(%.100s)", #X); BEGIN(); gline = __LINE__; DUMA_ASSERT(X); ENDB(); judge(__VA_ARGS__, #X, "mac.c", gline); }
#define TXTF(X, F, LN) if (MINE()) { ++nstate; snprintf(cur, 200, "DUMA_ASSERT(%.100s) at %s(%d)", #X, F, LN); BEGIN(); DUMA_ASSERT(X); ENDB(); judge(0, #X, F, LN); }
static int isz(const char *s) { return s[0] == 0; }
static void texts(void) {
  int x = 0, y = 3;
  TXT(zero, 0) TXT(!one, 0) TXT(x == y, 0) TXT(x, 0) TXT(one, 1) TXT(x = 0, 0) TXT(x = 5, 1)
  x = 0;
  TXT(y < 3, 0) TXT(y > 3, 0) TXT(y <= 3, 1) TXT(y & 4, 0) TXT(y & 1, 1) TXT(x || zero, 0) TXT(x && one, 0) TXT(x || one, 1) TXT(x ? 1 : 0, 0) TXT(x ? 0 : 1, 1) TXT(zero, 0)
  TXT(nine % 3, 0) TXT(nine %3, 0) TXT(nine % 9 , 0) TXT(nine%nine, 0) TXT(nine %5, 1)
  TXT(isz("%s%s%d%n"), 0) TXT(isz("%"), 0) TXT(isz("%%"), 0) TXT(isz("a\n\t\"b\\"), 0) TXT('%' == 37 + x + zero + 1, 0) TXT(isz(""), 1) TXT(isz("%c%p%x%u%i%l"), 0)
  TXT((x, y, zero), 0) TXT((zero, x, y), 1) TXT(sizeof(int) == 3, 0) TXT(sizeof(int) == 4, 1)
  TXT(isz("0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"), 0)
  { int k = 0, n = 0; /* statement contexts */
    for (k = 0; k < 4; ++k) { if (!MINE()) continue; snprintf(cur, 200, "DUMA_ASSERT without braces, %d", k); n = 0;
      BEGIN(); if (k & 1) DUMA_ASSERT(k & 2); else n = 1; n += 2; ENDB(); judge(!(k & 1) || (k & 2), "k & 2", "mac.c", __LINE__); if (!died && n != ((k & 1) ? 2 : 3)) fail("once", "wrong branch"); } }
#line 1 "mac2.c"
  TXTF(zero, "mac2.c", 1)
#line 9 "dir/some file %s %d.c"
  TXTF(zero, "dir/some file %s %d.c", 9)
#line 32767 "m.c"
  TXTF(zero, "m.c", 32767)
#line 32768 "m.c"
  TXTF(zero, "m.c", 32768)
#line 65536 "m.c"
  TXTF(zero, "m.c", 65536)
#line 16777216 "m.c"
  TXTF(zero, "m.c", 16777216)
#line 2147483647 "m.c"
  TXTF(zero, "m.c", 2147483647)
#line 250 "mac.c"
}

/* ---- function protection ---- */
#if defined(MAC_PROT)
#define NI __attribute__((noinline))
static volatile U keep, corrupt_to; static volatile int landed, passed; static int mode;
struct S { int a; double b; char c[20]; };
#ifdef MAC_NOGNU
#define SLOT() ((volatile U *)(void *)aiDUMA_PROT + (mode & 1))
#else
#define SLOT() ((volatile U *)__builtin_frame_address(0) + 1)
#endif
static void landing(void) { landed = 1; siglongjmp(jb, 2); }
static int esc(int v) { passed++; if (corrupt_to != keep) { landed = 1; siglongjmp(jb, 2); } return v; }
static NI void v_end(void) { DUMA_FN_PROT_START keep = *SLOT(); if (corrupt_to) *SLOT() = corrupt_to; else corrupt_to = keep; gline = __LINE__ + 1;
  DUMA_FN_PROT_END esc(0); }
static NI int v_ret(int a) { DUMA_FN_PROT_START keep = *SLOT(); if (corrupt_to) *SLOT() = corrupt_to; else corrupt_to = keep; gline = __LINE__; DUMA_FN_PROT_RET(esc(a)); DUMA_FN_PROT_END return 0; }
static NI void v_void(void) { DUMA_FN_PROT_START keep = *SLOT(); if (corrupt_to) *SLOT() = corrupt_to; else corrupt_to = keep; gline = __LINE__; DUMA_FN_PROT_RET_VOID(); DUMA_FN_PROT_END }
static NI int v_deep(int d, int at) { int r = 0; DUMA_FN_PROT_START
  if (d == at) { keep = *SLOT(); if (corrupt_to) *SLOT() = corrupt_to; else corrupt_to = keep; }
  if (d) r = v_deep(d - 1, at) + 1; else if (at < 0) r = 0;
  gline = __LINE__; if (d == at) DUMA_FN_PROT_RET(esc(r)); else DUMA_FN_PROT_RET(r);
  DUMA_FN_PROT_END return -1; }
static NI void v_restore(int when) { DUMA_FN_PROT_START keep = *SLOT(); *SLOT() = corrupt_to; if (when) *SLOT() = keep; else { *SLOT() = 0; *SLOT() = keep; } DUMA_FN_PROT_END }
static NI struct S v_struct(struct S s) { DUMA_FN_PROT_START if (s.a > 2) DUMA_FN_PROT_RET(s); else s.a++; DUMA_FN_PROT_RET(s); DUMA_FN_PROT_END return s; }
static NI double v_dbl(double x) { DUMA_FN_PROT_START DUMA_FN_PROT_RET(x * 2); DUMA_FN_PROT_END return 0; }
static NI void *v_ptr(void *x) { DUMA_FN_PROT_START DUMA_FN_PROT_RET(x); DUMA_FN_PROT_END return 0; }
static NI long v_loop(long n) { long i, s = 0; DUMA_FN_PROT_START for (i = 0; i < n; ++i) { int k; for (k = 0; k < 3; ++k) { if (i == 7) DUMA_FN_PROT_RET(s + 1000); s += i; } } DUMA_FN_PROT_END return s; }
static void callit(int f) { switch (f) { case 0: v_end(); break; case 1: v_ret(4); break; case 2: v_void(); break; } }
static void prot(void) {
  static const char *const nm[] = {"DUMA_FN_PROT_END", "DUMA_FN_PROT_RET", "DUMA_FN_PROT_RET_VOID"};
  int f, i, j, ok; U orig; long n;
#ifdef MAC_NOGNU
  const char *txt = "aiDUMA_PROT";
#else
  const char *txt = "return_address";
#endif
  for (mode = 0; mode < 2; ++mode) for (f = 0; f < 3; ++f) {
    corrupt_to = 0; passed = 0; snprintf(cur, 200, "%s, nothing overwritten", nm[f]);
    BEGIN(); callit(f); ENDB(); judge(1, "", "", 0); orig = keep; if (f < 2 && passed != 1) fail("once", "the expression or the code after it did not run exactly once");
    /* every single bit, every value of every byte, every pair of bytes zeroed, other values */
    for (i = 0; i < 64 + 8 * 256 + 64 + 8; ++i) {
      U to; if (i < 64) to = orig ^ (1ul << i); else if (i < 64 + 2048) { int s = (i - 64) / 256 * 8; to = (orig & ~(255ul << s)) | ((U)((i - 64) % 256) << s); }
      else if (i < 64 + 2048 + 64) { int z = i - 64 - 2048; to = orig & ~(255ul << (z / 8 * 8)) & ~(255ul << (z % 8 * 8)); }
      else { static const U o[] = {1, ~0ul, 0x4141414141414141ul, 0x8000000000000000ul, 0x800000000000ul, 0, 0xffff800000000000ul, 0x7ffffffff000ul}; to = o[i - 64 - 2048 - 64]; if (!to) to = (U)(void *)landing; }
#ifndef MAC_NOGNU
      if (f == 2 && to != (U)(void *)landing && (to >> 47) == 0 && to > 4096) continue; /* would run code nobody chose if it were not detected */
#endif
      if (to == 0 || !MINE()) continue;
      ok = to == orig; corrupt_to = to; landed = 0; passed = 0; ++nstate;
      snprintf(cur, 200, "%s, return address (or marker word) %#lx overwritten with %#lx", nm[f], orig, to);
      BEGIN(); callit(f); ENDB();
      if (landed) died = 0;
      judge(ok, txt, "mac.c", gline);
      if (!ok && passed) fail("continued", "the function went on after its end macro");
      if (nviol > 20) return;
    }
  }
  mode = 0;
  for (i = 0; i < 12; ++i) for (j = -1; j <= i; ++j) { /* the frame that is damaged is the one that reports */
    int r = -7; if (!MINE()) continue; corrupt_to = 0; ++nstate;
    snprintf(cur, 200, "%d protected calls deep, nothing overwritten", i);
    BEGIN(); r = v_deep(i, j); ENDB(); judge(1, "", "", 0); if (!died && r != i) fail("element", "wrong result");
    if (j < 0) continue;
    corrupt_to = (U)(void *)landing; landed = 0; passed = 0;
    snprintf(cur, 200, "%d protected calls deep, level %d overwritten", i, j);
    BEGIN(); r = v_deep(i, j); ENDB(); if (landed) died = 0; judge(0, txt, "mac.c", gline);
    if (passed) fail("continued", "the function went on after its end macro");
  }
  for (i = 0; i < 2; ++i) { if (!MINE()) continue; corrupt_to = (U)(void *)landing; snprintf(cur, 200, "overwritten and put back"); BEGIN(); v_restore(i); ENDB(); judge(1, "", "", 0); }
  for (i = -5; i < 10; ++i) { struct S s, r; double d = 0; void *p = 0; long q = -1; if (!MINE()) continue; memset(&s, i, sizeof s); s.a = i; memset(&r, 0, sizeof r); ++nstate;
    snprintf(cur, 200, "results of protected functions, %d", i);
    BEGIN(); r = v_struct(s); d = v_dbl(i / 8.0); p = v_ptr((void *)(long)i); q = v_loop(i); ENDB(); judge(1, "", "", 0);
    for (n = 0, j = 0; j < i && j < 7; ++j) n += 3 * j; if (i > 7) n += 1000;
    if (r.a != (i > 2 ? i : i + 1) || memcmp(r.c, s.c, 20) || d != i / 4.0 || p != (void *)(long)i || q != n) fail("element", "wrong result"); }
}
#else
static void prot(void) {}
#endif

/* ---- whole processes: argv tells which check fails and where ---- */
static void *body(void *a) {
  const char *how = (const char *)a; CA_DEFINE(int, arr, 4); volatile int i = how[1] - '0';
  switch (how[0]) {
  case 'a': DUMA_ASSERT(i != 4); break;
  case 'r': i = CA_REF(arr, i); break;
  case 'w': CA_REF(arr, i) = 3; break;
#if defined(MAC_PROT)
  case 'e': case 't': case 'v': corrupt_to = how[1] == '4' ? 0x4141414141414141ul : 0; callit(how[0] == 'e' ? 0 : how[0] == 't' ? 1 : 2); break;
#endif
  }
  (void)!__real_write(1, "CONTINUED\n", 10);
  return 0;
}
static void proc(char **v) { /* how disposition thread */
  sigset_t s; sigemptyset(&s); sigaddset(&s, SIGSEGV);
  quietfd = 0;
  switch (*v[1]) { case 'i': signal(SIGSEGV, SIG_IGN); break; case 'b': sigprocmask(SIG_BLOCK, &s, 0); break; case 'd': signal(SIGSEGV, SIG_DFL); break; }
  if (*v[2] == 't') { pthread_t t; pthread_create(&t, 0, body, v[0]); pthread_join(t, 0); } else body(v[0]);
  (void)!__real_write(1, "ENDED\n", 6);
  _exit(0);
}
static void js(const char *s) { putchar('"'); for (; *s; ++s) if (*s == '"' || *s == '\\') printf("\\%c", *s); else if ((unsigned char)*s < 32 || (unsigned char)*s > 126) putchar(' '); else putchar(*s); putchar('"'); }
int main(int argc, char **argv) {
  struct sigaction sa; int i, w;
  memset(&sa, 0, sizeof sa); sa.sa_sigaction = onsegv; sa.sa_flags = SA_SIGINFO;
  if (argc > 4 && !strcmp(argv[1], "proc")) proc(argv + 2);
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGTRAP, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGFPE, &sa, 0);
  for (i = 2; i < argc; ++i) { if (!strncmp(argv[i], "shard=", 6)) shard = strtoul(argv[i] + 6, 0, 10); if (!strncmp(argv[i], "nshards=", 8)) nshards = strtoul(argv[i] + 8, 0, 10); if (!strcmp(argv[i], "thorough")) thorough = 1; }
  mkedges();
  w = argv[1][0];
  if (w == 'f') fixed(); else if (w == 'd') dyn(); else if (w == 'u') forms(); else if (w == 'a') { asserts(); texts(); } else if (w == 'p') prot();
  printf("{\"transitions\":%lu,\"histories\":%lu,\"deaths\":%lu,\"states\":%lu,\"mapchecks\":0,\"probes\":0,\"aux\":[0],\"samples\":[", ntrans, nexec, nstop, nstate);
  for (i = 0; i < nsample; ++i) { if (i) putchar(','); js(sample[i]); }
  printf("],\"violations\":[");
  for (i = 0; i < (int)(nviol < 20 ? nviol : 20); ++i) { printf("%s{\"tag\":", i ? "," : ""); js(vtag[i]); printf(",\"what\":"); js(vwhat[i]); printf(",\"ops\":"); js(vops[i]); printf("}"); }
  printf("]}\n"); fflush(stdout);
  _exit(nviol ? 1 : 0);
}
