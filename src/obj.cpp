/* C19: object trees whose destructors delete other objects, through every form, with and without exceptions.
 * What the library reports (allocation trace, leak report, mismatch diagnostics) is compared with the location of
 * the new and delete statements; afterwards another thread must be able to use the heap. */
#include "hx.h"
#include <new>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include "obj.h"
#include "dumapp.h"
#undef __FILE__
#undef __LINE__
static const char *cur_file; static int cur_line;
#define __FILE__ cur_file
#define __LINE__ cur_line
#if __cplusplus >= 201103L
#define MAYTHROW noexcept(false)
#else
#define MAYTHROW
#endif
extern "C" ssize_t __real_write(int, const void *, size_t);
static char out[1 << 20]; static size_t nout; static int cap, thru;
extern "C" ssize_t __wrap_write(int fd, const void *b, size_t n) {
  if (!cap) return thru ? __real_write(fd, b, n) : (ssize_t)n;
  for (size_t i = 0; i < n && nout + 1 < sizeof out; ++i) out[nout++] = ((const char *)b)[i];
  out[nout] = 0; return (ssize_t)n;
}
static char curops[600];
#define FAIL(t, ...) do { u64 vi_ = __atomic_fetch_add(&sh->nviol, 1, __ATOMIC_SEQ_CST); if (vi_ < MAXV) { snprintf(sh->v[vi_].what, 400, __VA_ARGS__); hx_cpy(sh->v[vi_].tag, t, 24); hx_cpy(sh->v[vi_].ops, curops, 600); } } while (0)

/* ---- locations: statement k is at file NAME[k % 3], line 1000 + k (delete) or 5000 + k (new) ---- */
static const char *const NAME[3] = {"one.cpp", "sub/dir/two.cpp", "three.hpp"};
static void at(int k) { cur_file = NAME[k % 3]; cur_line = k; }

/* ---- the tree ---- */
enum { kElem, kArr1, kArr3, kVirt, kMulti, kNoThrow, kArrNT, kPlain, kPlainArr, kPlainNewMac, kMacNewPlain, kOver, kOverArr, kTriv, kNull, kMalloc, kTemp, kOperand, kCtorThrow, kArrCtorThrow, kOpThrow, kDtorThrow, kDtorThrowUp, kCtxIf, kCtxLoop, kSized, kUnwind, kUnwind2, kOverBig, NK };
static const char *const KN[] = {"new", "new[1]", "new[3]", "virtual", "second-base", "nothrow", "nothrow[]", "plain", "plain[]", "plain-new", "plain-delete", "overaligned", "overaligned[]", "int[]", "null", "malloc", "temporary", "operand-deletes", "ctor-throws", "array-ctor-throws", "operand-throws", "dtor-throws", "dtor-throws-up", "if-else", "loop", "class-with-own-delete", "while-unwinding", "unwinding-member", "aligned-to-16384"};
#define MAXN 300
static struct { int kind, parent, nch, ch[4]; void *p; int ctor, dtor; } S[MAXN]; static int nS;
static int pending = -1;
int take_id() { int i = pending; pending = -1; return i; }
void constructed(int id) { if (id >= 0) S[id].ctor++; }
void destructed(int id) { if (id >= 0) S[id].dtor++; }
struct Boom { char x[5000]; }; /* its size tells the events of the exception object itself */
struct Obj { int id; Obj() : id(take_id()) { constructed(id); } ~Obj() MAYTHROW { destructed(id); if (run_children(id)) throw Boom(); } };
struct VBase { int x; virtual ~VBase() MAYTHROW {} };
struct VDer : VBase { Obj o; };
struct Other { virtual ~Other() MAYTHROW {} char c[40]; };
struct Multi : Other, VBase { Obj o; };
struct Thrower { int id; Obj o; Thrower() : id(-1) { throw Boom(); } };
static int throwat;
struct ArrThrower { Obj o; ArrThrower() { if (!throwat--) throw Boom(); } };
#undef new
#undef delete
struct OwnDel { Obj o; static int news, dels; void *operator new(size_t n, const char *f, int l) { ++news; return ::operator new(n, f, l); } void operator delete(void *p) { ++dels; ::operator delete(p); } void operator delete(void *p, const char *f, int l) { ::operator delete(p, f, l); } };
int OwnDel::news, OwnDel::dels;
#if __cplusplus >= 201703L
struct alignas(128) Over { Obj o; };
struct alignas(16384) OverBig { Obj o; };
#endif
static Obj *nt_new() { return new (std::nothrow, cur_file, cur_line) Obj; }
static Obj *nt_newa(int n) { return new (std::nothrow, cur_file, cur_line) Obj[n]; }
#include "dumapp.h"
#undef __FILE__
#undef __LINE__
#define __FILE__ cur_file
#define __LINE__ cur_line
#ifdef DUMA_OLD_NEW_MACRO
#define NEW(T) NEW_ELEM(T)
#define NEWA(T, N) NEW_ARRAY(T, N)
#else
#define NEW(T) new T
#define NEWA(T, N) new T[N]
#endif
#ifdef DUMA_OLD_DEL_MACRO
#define DELETE(P) DEL_ELEM(P)
#define DELETEA(P) DEL_ARRAY(P)
#else
#define DELETE(P) delete P
#define DELETEA(P) delete[] P
#endif
/* expected events: kind 'A' or 'F', location of the statement, location of the allocation; -1 unknown, -2 anything of: unknown or loc2 */
static struct Ev { char t; int loc, alt, from; } X[4000]; static int nX;
static void expA(int loc) { X[nX].t = 'A'; X[nX].loc = loc; X[nX].alt = -1; X[nX++].from = -1; }
static void expF(int loc, int alt, int from) { X[nX].t = 'F'; X[nX].loc = loc; X[nX].alt = alt; X[nX++].from = from; }

static void create(int id) {
  void *p = 0; at(5000 + id); pending = id;
  switch (S[id].kind) {
  case kArr1: p = NEWA(Obj, 1); break;
  case kArr3: p = NEWA(Obj, 3); break;
  case kVirt: p = static_cast<VBase *>(NEW(VDer)); break;
  case kMulti: p = static_cast<VBase *>(NEW(Multi)); break;
  case kNoThrow: p = nt_new(); break;
  case kArrNT: p = nt_newa(2); break;
  case kPlain: case kPlainNewMac: p = plain_obj(); break;
  case kPlainArr: p = plain_objs(2); break;
#if __cplusplus >= 201703L
  case kOver: p = NEW(Over); if ((up)p % 128) FAIL("align", "over-aligned object at %p", p); break;
  case kOverBig: p = NEW(OverBig); if ((up)p % 16384) FAIL("align", "over-aligned object at %p", p); break;
  case kOverArr: p = NEWA(Over, 3); if ((up)p % 128) FAIL("align", "over-aligned array at %p", p); break;
#endif
  case kMacNewPlain: p = NEW(ObjP); break;
  case kTriv: p = NEWA(int, 7); pending = -1; break;
  case kNull: case kCtorThrow: case kArrCtorThrow: case kOpThrow: case kTemp: pending = -1; break;
  case kMalloc: p = malloc(9); pending = -1; break;
  case kSized: p = NEW(OwnDel); break;
  default: p = NEW(Obj); break;
  }
  S[id].p = p;
  if (pending != -1) { FAIL("once", "no object was constructed"); pending = -1; }
  for (int i = 0; i < S[id].nch; ++i) create(S[id].ch[i]);
}
static Obj *thrower() { throw Boom(); }
static Obj *operand(int id) { int l = cur_line; const char *f = cur_file; at(3000 + id); char *t = NEWA(char, 3); at(4000 + id); DELETEA(t); cur_line = l; cur_file = f; return (Obj *)S[id].p; }
static void del(int id);
struct Guard { Obj *p; Guard(Obj *q) : p(q) {} ~Guard() MAYTHROW { DELETE(p); } };
struct Holder { Guard g; int x; Holder(Obj *q) : g(q), x(0) { throw Boom(); } };
/* deletes one child; tells whether an exception has to go on */
static void del(int id) {
  void *p = S[id].p; at(1000 + id);
  switch (S[id].kind) {
  case kElem: case kNoThrow: case kDtorThrowUp: DELETE((Obj *)p); break;
  case kArr1: case kArr3: case kArrNT: DELETEA((Obj *)p); break;
  case kVirt: case kMulti: DELETE((VBase *)p); break;
  case kPlain: case kMacNewPlain: plain_delobj((ObjP *)p); break;
  case kPlainArr: plain_delobjs((ObjP *)p); break;
  case kPlainNewMac: DELETE((ObjP *)p); break;
#if __cplusplus >= 201703L
  case kOver: DELETE((Over *)p); break;
  case kOverBig: DELETE((OverBig *)p); break;
  case kOverArr: DELETEA((Over *)p); break;
#endif
  case kTriv: DELETEA((int *)p); break;
  case kNull: DELETE((Obj *)p); break;
  case kMalloc: free(p); break;
  case kTemp: { at(3000 + id); Obj *t = NEW(Obj); int *q = NEWA(int, 2); at(4000 + id); DELETE(t); at(1000 + id); DELETEA(q); break; }
  case kOperand: DELETE(operand(id)); break;
  case kCtorThrow: try { at(3000 + id); Thrower *t = NEW(Thrower); FAIL("once", "no exception from the constructor"); (void)t; } catch (Boom &) {} break;
  case kArrCtorThrow: try { at(3000 + id); throwat = 2; ArrThrower *t = NEWA(ArrThrower, 4); FAIL("once", "no exception from the constructor"); (void)t; } catch (Boom &) {} break;
  case kOpThrow: try { DELETE(thrower()); FAIL("once", "no exception from the operand"); } catch (Boom &) {} break;
  case kDtorThrow: try { DELETE((Obj *)p); FAIL("once", "no exception from the destructor"); } catch (Boom &) {} break;
  case kCtxIf: { int c = id >= 0; if (c) DELETE((Obj *)p); else FAIL("once", "wrong branch"); if (!c) FAIL("once", "wrong branch"); else DELETE((Obj *)0); break; }
  case kCtxLoop: { int n = 0; for (int i = 0; i < 3; ++i) DELETE((Obj *)(i == 1 ? p : 0)), ++n; if (n != 3) FAIL("once", "the loop ran %d times", n); break; }
  case kUnwind: try { Guard g((Obj *)p); throw Boom(); } catch (Boom &) {} break;
  case kUnwind2: try { Holder h((Obj *)p); } catch (Boom &) {} break;
  case kSized: { int d = OwnDel::dels; DELETE((OwnDel *)p); if (OwnDel::dels <= d) FAIL("once", "operator delete of the class was not used"); break; }
  }
}
/* called by destructors; 1: throw */
int run_children(int id) {
  if (id < 0) return 0;
  int k = S[id].kind, f = 0;
  for (int i = 0; i < S[id].nch; ++i) {
    int c = S[id].ch[i];
    if (S[c].kind == kDtorThrowUp) { try { del(c); FAIL("once", "no exception from the destructor"); } catch (Boom &) { f = 1; } }
    else del(c);
  }
  (void)f;
  return k == kDtorThrow || k == kDtorThrowUp;
}
/* the model of the same */
static int haslib(int id) { int k = S[id].kind; return k != kNull && k != kCtorThrow && k != kArrCtorThrow && k != kOpThrow && k != kTemp; }
static void simcreate(int id) {
  if (haslib(id)) { int k = S[id].kind; expA(k == kPlain || k == kPlainArr || k == kPlainNewMac ? -1 : 5000 + id); }
  for (int i = 0; i < S[id].nch; ++i) simcreate(S[id].ch[i]);
}
static void simdel(int id, int outer) {
  int k = S[id].kind, here = 1000 + id, from = k == kPlain || k == kPlainArr || k == kPlainNewMac ? -1 : 5000 + id, ch = 1, in = here;
  switch (k) {
  case kTemp: expA(3000 + id); expA(3000 + id); expF(4000 + id, 4000 + id, 3000 + id); expF(here, here, 3000 + id); return;
  case kCtorThrow: case kArrCtorThrow: expA(3000 + id); expF(3000 + id, 3000 + id, 3000 + id); return;
  case kNull: case kOpThrow: return;
  case kOperand: expA(3000 + id); expF(4000 + id, 4000 + id, 3000 + id); break;
  case kTriv: case kMalloc: ch = 0; break;
  case kPlain: case kPlainArr: case kMacNewPlain: in = outer; break;
  }
  if (ch) for (int i = 0; i < S[id].nch; ++i) simdel(S[id].ch[i], in);
  if (k == kOver || k == kOverArr || k == kOverBig) expF(-1, here, from);
  else if (in == outer && in != here) expF(-1, outer, from);
  else expF(here, here, from);
}
/* reads the trace */
static int locs(const char *s, const char *e, int *v) { /* user locations named between s and e */
  int n = 0;
  for (; s < e; ++s) for (int i = 0; i < 3; ++i) if (hx_pre(s, NAME[i]) && s[hx_len(NAME[i])] == '(') { int x = atoi(s + hx_len(NAME[i]) + 1); if (x % 3 != i) x = -99; if (n < 4) v[n++] = x; }
  return n;
}
static void compare(const char *what) {
  const char *s = out; int i = 0;
  for (;; ++i) {
    const char *a = hx_find(s, "DUMA: Allocating"), *f = hx_find(s, "DUMA: Freeing"), *b = !a ? f : !f ? a : a < f ? a : f;
    if (!b) break;
    const char *e = b + 5; const char *a2 = hx_find(e, "DUMA: "); if (!a2) a2 = e + hx_len(e);
    int v[4], n = locs(b, a2, v); char t = b == a ? 'A' : 'F';
    size_t sz = (size_t)atol(b + (t == 'A' ? 17 : 14)), bl = (size_t)(a2 - b);
    static char one[2000]; hx_cpy(one, b, bl + 1 < sizeof one ? bl + 1 : sizeof one);
    if ((n == 0 && sz >= 5000 && sz < 5400) || (n == 0 && !hx_find(one, "UNKNOWN"))) { s = a2; --i; continue; } /* exception objects; the library's own tables */
    if (i >= nX) { FAIL("trace", "%s: more events than expected: %.120s", what, b); return; }
    if (X[i].t != t) { FAIL("trace", "%s: event %d is %s, expected %s: %.150s", what, i, t == 'A' ? "an allocation" : "a release", X[i].t == 'A' ? "an allocation" : "a release", b); return; }
    if (t == 'A') { if (!(n == 0 ? X[i].loc == -1 : n == 1 && v[0] == X[i].loc)) { FAIL("location", "%s: event %d names line %d, the new expression is at %d: %.150s", what, i, n ? v[0] : -1, X[i].loc, b); return; } }
    else {
      int ok = 0, fr = X[i].from != -1;
      if (n == 1 + fr && (v[0] == X[i].loc || v[0] == X[i].alt) && v[0] != -1) ok = !fr || v[1] == X[i].from;
      else if (n == fr && X[i].loc == -1) ok = !fr || v[0] == X[i].from;
      if (!ok) { FAIL("location", "%s: event %d, delete statement at line %d, allocated at %d, but reported: %.200s", what, i, X[i].loc == -1 ? X[i].alt : X[i].loc, X[i].from, b); return; }
    }
    s = a2;
  }
  if (i < nX) FAIL("trace", "%s: %d events instead of %d", what, i, nX);
}
/* another thread uses the heap */
static volatile int ask, answer;
static void *helper(void *) { int n = 0; for (;;) { while (ask == n) sched_yield(); n = ask; void *p = malloc(3); free(p); answer = n; } return 0; }
static void lockfree(const char *what) {
  int n = ++ask; long spins = 0;
  while (answer != n) { sched_yield(); if (++spins > 3000000) { FAIL("lock", "%s: another thread cannot use the heap any more", what); hx_sys3(SYS_exit_group, 0, 0, 0); } }
}
static void begin() { nout = 0; out[0] = 0; nX = 0; cap = 1; }
static int describe(int id, char *o, int n) {
  int k = snprintf(o, (size_t)(n > 0 ? n : 0), "%s", KN[S[id].kind]); if (k >= n) return n;
  if (S[id].nch) { k += snprintf(o + k, (size_t)(n - k), "("); for (int i = 0; i < S[id].nch && k < n; ++i) { k += describe(S[id].ch[i], o + k, n - k); if (k < n) k += snprintf(o + k, (size_t)(n - k), i + 1 < S[id].nch ? " " : ")"); } }
  return k < n ? k : n;
}
static int topthrow(void) { return S[0].kind == kDtorThrowUp; }
static void runtree(int leak) {
  describe(0, curops, 590); hx_cpy((char *)sh->sample[7], curops, 300);
  for (int i = 0; i < nS; ++i) { S[i].p = 0; S[i].ctor = S[i].dtor = 0; }
  if (leak) DUMA_newFrame();
  begin(); create(0); cap = 0; simcreate(0); compare("new"); hx_add(&sh->transitions, 1);
  if (leak) { /* the report names every object and where it was made */
    begin(); DUMA_delFrame(); cap = 0; hx_add(&sh->transitions, 1);
    int seen[MAXN] = {0}, v[4]; const char *s = out;
    for (;;) { const char *p = hx_find(s, "DUMA: ptr="); if (!p) break; const char *e = hx_find(p + 6, "DUMA: "); if (!e) e = p + hx_len(p); int n = locs(p, e, v); if (n == 1 && v[0] >= 5000 && v[0] < 5000 + nS) seen[v[0] - 5000]++; else if (n) FAIL("location", "leak report: %.150s", p); s = e; }
    for (int i = 0; i < nS; ++i) { int k = S[i].kind, w = haslib(i) && k != kPlain && k != kPlainArr && k != kPlainNewMac; if (seen[i] != w) { FAIL("location", "leak report names the new expression of object %d %d times", i, seen[i]); break; } }
  }
  begin();
  if (topthrow()) { try { del(0); FAIL("once", "no exception from the destructor"); } catch (Boom &) {} } else del(0);
  cap = 0; simdel(0, -1); compare("delete"); hx_add(&sh->transitions, 1); hx_add(&sh->histories, 1);
  for (int i = 0; i < nS; ++i) { int k = S[i].kind, w = haslib(i) && k != kTriv && k != kMalloc; if (S[i].ctor != w || S[i].dtor != w) { FAIL("once", "object %d was constructed %d times and destroyed %d times", i, S[i].ctor, S[i].dtor); break; } }
  begin(); plain_delete(plain_new(5)); expA(-1); expF(-1, -1, -1); cap = 0; compare("afterwards"); hx_add(&sh->transitions, 1);
  lockfree("afterwards");
  u64 h = 7; for (int i = 0; i < nS; ++i) h = hx_mix(h, (u64)(S[i].kind * 64 + S[i].parent + 2)); hx_seen(hx_mix(h, (u64)nX));
}
/* ---- all trees ---- */
static int shardi, nshards = 1, kinds[NK], nkinds, leakmode; static long ctr, batchfrom, batchto, batchsz = 150;
static void visit(void) {
  long c = ctr++;
  if (c % nshards != shardi) return;
  c /= nshards;
  if (c < batchfrom || c >= batchto || sh->nviol > 5) return;
  sh->aux[15] = (u64)(c + 1); runtree(leakmode);
}
static void shapes(int n, int i) { /* parents of nodes i.. ; preorder: parent is on the rightmost path */
  if (i == n) {
    nS = n;
    for (int a = 0; a < n; ++a) S[a].nch = 0;
    for (int a = 1; a < n; ++a) { int p = S[a].parent; if (S[p].nch >= 4) return; S[p].ch[S[p].nch++] = a; }
    /* kinds: nodes with children must be able to have some */
    int k[16] = {0};
    for (;;) {
      int ok = 1;
      for (int a = 0; a < n && ok; ++a) { int q = kinds[k[a]]; S[a].kind = q; if (S[a].nch && (!haslib(0 + a) || q == kTriv || q == kMalloc)) ok = 0; }
      for (int a = 0; a < n && ok; ++a) { int q = S[a].kind; if ((q == kDtorThrow || q == kDtorThrowUp) && a) { int p = S[a].parent; (void)p; } }
      if (ok) visit();
      int a = 0; while (a < n && ++k[a] == nkinds) k[a++] = 0;
      if (a == n) break;
    }
    return;
  }
  for (int p = i - 1; p >= 0; p = p ? S[p].parent : -1) { S[i].parent = p; shapes(n, i + 1); }
}
static void trees(int n) { S[0].parent = -1; if (n == 1) { nS = 1; S[0].nch = 0; for (int a = 0; a < nkinds; ++a) { S[0].kind = kinds[a]; visit(); } } else shapes(n, 1); }
/* ---- chains: depth, with each kind cycling ---- */
static void chain(int depth, int k1, int k2) {
  nS = depth;
  for (int i = 0; i < depth; ++i) { S[i].kind = i % 2 ? k2 : k1; S[i].parent = i - 1; S[i].nch = i + 1 < depth; S[i].ch[0] = i + 1; }
}
/* ---- every way to allocate x every way to release ---- */
static const char *const AN[] = {"new", "new[]", "new T", "new T[]", "operator new(n)", "operator new(n,nothrow)", "operator new[](n)", "operator new[](n,nothrow)", "operator new(n,f,l)", "operator new(n,nothrow,f,l)", "operator new[](n,f,l)", "operator new[](n,nothrow,f,l)", "malloc", "calloc", "realloc", "strdup", "memalign", "valloc", "posix_memalign"};
static const char AF[] = "eaeaeeaaeeaaccccccc"; static const int AL[] = {1, 1, 1, 1, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1};
static const char *const RN[] = {"delete", "delete[]", "operator delete(p)", "operator delete(p,nothrow)", "operator delete[](p)", "operator delete[](p,nothrow)", "operator delete(p,f,l)", "operator delete(p,nothrow,f,l)", "operator delete[](p,f,l)", "operator delete[](p,nothrow,f,l)", "free", "realloc"};
static const char RF[] = "eaeeaaeeaacc"; static const int RL[] = {1, 1, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1};
static void *allocby(int a) {
  void *p = 0; char *s = 0;
  switch (a) {
  case 0: { int *q = NEW(int); p = q; break; } case 1: { int *q = NEWA(int, 3); p = q; break; } case 2: { double *q = NEW(double); p = q; break; } case 3: { short *q = NEWA(short, 5); p = q; break; }
  case 4: p = plain_new(4); break; case 5: p = plain_new_nt(4); break; case 6: p = plain_newa(4); break; case 7: p = plain_newa_nt(4); break;
  case 8: p = operator
#undef new
#undef delete
new(4, cur_file, cur_line); break;
  case 9: p = operator new(4, std::nothrow, cur_file, cur_line); break;
  case 10: p = operator new[](4, cur_file, cur_line); break;
  case 11: p = operator new[](4, std::nothrow, cur_file, cur_line); break;
  case 12: p = malloc(5); break; case 13: p = calloc(2, 3); break; case 14: p = realloc(0, 6); break; case 15: s = strdup("abc"); p = s; break; case 16: p = memalign(16, 5); break; case 17: p = valloc(9); break; case 18: if (posix_memalign(&p, 64, 8)) p = 0; break;
  }
  return p;
}
static void relby(int r, void *p) {
  switch (r) {
#define opdel operator delete
  case 2: plain_delete(p); break; case 3: plain_delete_nt(p); break; case 4: plain_deletea(p); break; case 5: plain_deletea_nt(p); break;
  case 6: opdel(p, cur_file, cur_line); break; case 7: opdel(p, std::nothrow, cur_file, cur_line); break; case 8: opdel[](p, cur_file, cur_line); break; case 9: opdel[](p, std::nothrow, cur_file, cur_line); break;
  case 10: free(p); break; case 11: p = realloc(p, 50); break;
#include "dumapp.h"
#undef __FILE__
#undef __LINE__
#define __FILE__ cur_file
#define __LINE__ cur_line
  case 0: DELETE((int *)p); break; case 1: DELETEA((int *)p); break;
  }
}
static void pairs(void) {
  thru = 1;
  for (int a = 0; a < 19; ++a) for (int r = 0; r < 12; ++r) for (int n = 0; n < 3; ++n) {
    if (ctr++ % nshards != shardi) continue;
    snprintf(curops, 600, "%s then %s%s", AN[a], RN[r], n == 0 ? "" : n == 1 ? " of null" : " twice"); hx_cpy((char *)sh->sample[7], curops, 300);
    hx_clear(902);
    int pid = fork();
    if (!pid) {
      hx_sys3(SYS_dup2, 902, 2, 0); alarm(20);
      at(5001); void *p = allocby(a); if (!p) hx_sys3(SYS_exit_group, 9, 0, 0);
      at(1001); if (n != 1) relby(r, p); else { if (r == 11) hx_sys3(SYS_exit_group, 7, 0, 0); relby(r, 0); }
      if (n == 2) { at(1004); if (r != 11) relby(r, p); }
      hx_sys3(SYS_exit_group, 7, 0, 0);
    }
    int st; waitpid(pid, &st, 0); hx_add(&sh->transitions, 1 + (u64)n); hx_add(&sh->histories, 1);
    static char txt[8192]; long len = hx_sys6(SYS_pread64, 902, (long)txt, sizeof txt - 1, 0, 0, 0); txt[len > 0 ? len : 0] = 0; nout = 0;
    const char *e = txt + (len > 0 ? len : 0), *m = hx_find(txt, "DUMA Aborting"); int v[4], ended = WIFEXITED(st) && WEXITSTATUS(st) == 7;
    int match = AF[a] == RF[r] || n == 1; hx_seen(hx_mix((u64)(a * 16 + r), (u64)n));
    if (match && (n != 2 || r == 11)) { if (!ended) FAIL("falsealarm", "stopped although the forms match: %.200s", m ? m : txt); continue; }
    hx_add(&sh->deaths, 1);
    if (ended || !m) { FAIL("mismatch", n == 2 ? "the second release was not reported" : "the mismatch was not reported"); continue; }
    int k = locs(m, e, v), wa = AL[a], wr = RL[r], g1 = 0, g2 = 0; for (int i = 0; i < k; ++i) { g1 |= v[i] == 5001; g2 |= v[i] == 1001 || (n == 2 && v[i] == 1004); }
    if (!match && ((wa && !g1) || (wr && !g2))) FAIL("location", "mismatch reported without the place of the %s: %.200s", wa && !g1 ? "allocation" : "release", m);
    if (n == 2 && match && wr && !g2 && !hx_find(m, "already freed")) FAIL("location", "second release: %.200s", m);
  }
}
static void onbatchdeath(int st, long c) {
  snprintf(curops, 600, "%s", (char *)sh->sample[7]);
  FAIL("crash", "the process ended with signal %d in a legal program (tree %ld)", WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st), c);
}
int main(int argc, char **argv) {
  int depth = 3; const char *mode = argv[1], *ks = 0; int lo = 1, hi = 255, n;
  sh = (struct Shared *)hx_mmap_shared(sizeof *sh);
  for (int i = 2; i < argc; ++i) {
    if (hx_pre(argv[i], "shard=")) shardi = (int)hx_num(argv[i] + 6); else if (hx_pre(argv[i], "nshards=")) nshards = (int)hx_num(argv[i] + 8);
    else if (hx_pre(argv[i], "depth=")) depth = (int)hx_num(argv[i] + 6); else if (hx_pre(argv[i], "kinds=")) ks = argv[i] + 6; else if (hx_pre(argv[i], "leak")) leakmode = 1;
    else if (hx_pre(argv[i], "lo=")) lo = (int)hx_num(argv[i] + 3); else if (hx_pre(argv[i], "hi=")) hi = (int)hx_num(argv[i] + 3);
  }
  for (int k = 0; k < NK; ++k) {
#if __cplusplus < 201703L
    if (k == kOver || k == kOverArr || k == kOverBig) continue;
#endif
    if (ks) { const char *q = ks; int f = 0; while ((q = hx_find(q, KN[k]))) { char b = q == ks ? ',' : q[-1], e = q[hx_len(KN[k])]; if (b == ',' && (e == ',' || !e)) { f = 1; break; } ++q; } if (!f) continue; }
    kinds[nkinds++] = k;
  }
  if (hx_eq(mode, "pairs")) { hx_sys3(SYS_dup2, hx_memfd(), 902, 0); pairs(); }
  else if (hx_eq(mode, "trees")) {
    for (n = 1; n <= depth; ++n) {
      long total; batchfrom = batchto = 0; ctr = 0; trees(n); total = ctr / nshards + 1;
      for (long from = 0; from < total && sh->nviol < 5; from += batchsz) {
        sh->aux[15] = 0;
        int pid = fork();
        if (!pid) { alarm(120); pthread_t t; pthread_create(&t, 0, helper, 0); batchfrom = from; batchto = from + batchsz; ctr = 0; trees(n); hx_sys3(SYS_exit_group, 0, 0, 0); }
        int st; waitpid(pid, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) onbatchdeath(st, (long)sh->aux[15]);
      }
    }
  } else if (hx_eq(mode, "chain")) {
    for (int d = lo; d <= hi; ++d) for (int a = 0; a < nkinds; ++a) for (int b = 0; b < nkinds; ++b) {
      if (d > 24 && a != b && (d % 16) && d < hi - 2) continue;
      if (ctr++ % nshards != shardi || sh->nviol > 5) continue;
      int pid = fork();
      if (!pid) { alarm(60); pthread_t t; pthread_create(&t, 0, helper, 0); chain(d, kinds[a], kinds[b]); runtree(0); hx_sys3(SYS_exit_group, 0, 0, 0); }
      int st; waitpid(pid, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) onbatchdeath(st, d);
    }
  } else if (hx_eq(mode, "toodeep")) { /* stops with a report naming the statement */
    thru = 1;
    for (int d = lo; d <= hi; ++d) for (int a = 0; a < nkinds; ++a) {
      if (ctr++ % nshards != shardi) continue;
      hx_clear(902); int pid;
      if (hx_sys3(SYS_fcntl, 902, F_GETFD, 0) < 0) hx_sys3(SYS_dup2, hx_memfd(), 902, 0);
      pid = fork();
      if (!pid) { alarm(60); hx_sys3(SYS_dup2, 902, 2, 0); chain(d, kinds[a], kinds[a]); create(0); del(0); hx_sys3(SYS_exit_group, 7, 0, 0); }
      int st; waitpid(pid, &st, 0); hx_add(&sh->transitions, 1); hx_add(&sh->histories, 1); hx_add(&sh->deaths, 1);
      static char txt[1 << 20]; long len = hx_sys6(SYS_pread64, 902, (long)txt, sizeof txt - 1, 0, 0, 0); txt[len > 0 ? len : 0] = 0;
      snprintf(curops, 600, "%d nested deletes of %s", d, KN[kinds[a]]); const char *m = hx_find(txt, "DUMA_ASSERT("); int v[4];
      if (WIFEXITED(st)) FAIL("depth", "more nested deletes than there is room for were not reported");
      else if (!m || locs(m, m + hx_len(m), v) < 1 || v[0] < 1000 || v[0] >= 1000 + d) FAIL("depth", "no report with the place of the statement: %.200s", m ? m : txt + (len > 200 ? len - 200 : 0));
      hx_seen((u64)(d * 64 + a));
    }
  }
  hx_report(1);
  return sh->nviol ? 1 : 0;
}
