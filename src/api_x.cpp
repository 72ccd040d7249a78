// C++ interfaces: plain operators, operators with file/line, macro forms, member forms
#include <new>
#include "dumapp.h"
#include "api.h"
struct D16 { char b[16]; };   // scalar type for macro forms
struct MyBadAlloc : public std::bad_alloc { int tag; MyBadAlloc() : tag(4711) {} virtual const char *what() const throw() { return "MyBadAlloc"; } };
static void caught(std::bad_alloc &ex) { const char *w = ex.what(); MyBadAlloc *m = dynamic_cast<MyBadAlloc *>(&ex); api_err = m && m->tag == 4711 && w[0] == 'M' ? 1001 : 1000; }
static int below() { return GET_DUMA_TLSVARS()->PROTECT_BELOW; }
static int fillb() { return GET_DUMA_TLSVARS()->FILL; }
// macro forms first (new / delete are macros here)
#ifdef DUMA_NO_LEAKDETECTION
#define free _duma_free
#define malloc _duma_malloc
#define XL(F, N)
#define XM(F, N)
#else
#define XL(F, N) , F, N
#define XM(F, N) F, N
#endif
#ifdef DUMA_OLD_NEW_MACRO
#define NEW(T) NEW_ELEM(T)
#define NEWA(T, N) NEW_ARRAY(T, N)
#else
#define NEW(T) new T
#define NEWA(T, N) new T[N]
#endif
#ifdef DUMA_OLD_DEL_MACRO
#define DELETE(P) DEL_ELEM(P)
#define DELETEA(P) DEL_ARRAY(P)
#else
#define DELETE(P) delete P
#define DELETEA(P) delete[] P
#endif
#line 301 "gamma.cpp"
static void *mac_new16(size_t, size_t, Src *s) { s->file = "gamma.cpp"; s->line = 301; try { return NEW(D16); } catch (std::bad_alloc &ex) { caught(ex); return 0; } }
static void *mac_newa(size_t n, size_t, Src *s) { s->file = "gamma.cpp"; s->line = 302; try { return NEWA(char, n); } catch (std::bad_alloc &ex) { caught(ex); return 0; } }
static void mac_del(void *p, Src *s) { s->file = "gamma.cpp"; s->line = 303; DELETE((D16 *)p); }
static void mac_dela(void *p, Src *s) { s->file = "gamma.cpp"; s->line = 304; DELETEA((char *)p); }
struct Inner { char b[24]; };
struct Outer { Inner *in; void *c; char b[40];
#line 306 "gamma.cpp"
  ~Outer() { DELETE(in); free(c); } };
#line 307 "gamma.cpp"
static void nest_new(void **o, void **i, void **c) { Outer *x = NEW(Outer); x->in = NEW(Inner); x->c = malloc(33); *o = x; *i = x->in; *c = x->c; }
#line 308 "gamma.cpp"
static void nest_del(void *o) { DELETE((Outer *)o); }
#line 15 "api_x.cpp"
#undef new
#undef delete
static void *o_new(size_t n, size_t, Src *) { try { return operator new(n); } catch (std::bad_alloc &ex) { caught(ex); return 0; } }
static void *o_new_nt(size_t n, size_t, Src *) { return operator new(n, std::nothrow); }
static void *o_newa(size_t n, size_t, Src *) { try { return operator new[](n); } catch (std::bad_alloc &ex) { caught(ex); return 0; } }
static void *o_newa_nt(size_t n, size_t, Src *) { return operator new[](n, std::nothrow); }
static void *f_new(size_t n, size_t, Src *s) { s->file = "delta.cpp"; s->line = 11; try { return operator new(n XL("delta.cpp", 11)); } catch (std::bad_alloc &ex) { caught(ex); return 0; } }
static void *f_new_nt(size_t n, size_t, Src *s) { s->file = "delta.cpp"; s->line = 12; return operator new(n, std::nothrow XL("delta.cpp", 12)); }
static void *f_newa(size_t n, size_t, Src *s) { s->file = "delta.cpp"; s->line = 13; try { return operator new[](n XL("delta.cpp", 13)); } catch (std::bad_alloc &ex) { caught(ex); return 0; } }
static void *f_newa_nt(size_t n, size_t, Src *s) { s->file = "delta.cpp"; s->line = 14; return operator new[](n, std::nothrow XL("delta.cpp", 14)); }
static void *mb_new(size_t n, size_t, Src *s) { s->file = "delta.cpp"; s->line = 15; return _duma_allocate(0, n, below(), fillb(), 1, EFA_MEMBER_NEW_ELEM, DUMA_FAIL_NULL XL("delta.cpp", 15)); }
static void *mb_newa(size_t n, size_t, Src *s) { s->file = "delta.cpp"; s->line = 16; return _duma_allocate(0, n, below(), fillb(), 1, EFA_MEMBER_NEW_ARRAY, DUMA_FAIL_NULL XL("delta.cpp", 16)); }
static void o_del(void *p, Src *) { operator delete(p); }
static void o_del_nt(void *p, Src *) { operator delete(p, std::nothrow); }
static void o_dela(void *p, Src *) { operator delete[](p); }
static void o_dela_nt(void *p, Src *) { operator delete[](p, std::nothrow); }
#if __cpp_sized_deallocation || 1
extern "C++" void operator delete(void *, std::size_t) throw();
extern "C++" void operator delete[](void *, std::size_t) throw();
#endif
static void s_del(void *p, Src *) { operator delete(p, (std::size_t)16); }
static void s_dela(void *p, Src *) { operator delete[](p, (std::size_t)16); }
static void f_del(void *p, Src *s) { s->file = "delta.cpp"; s->line = 21; operator delete(p XL("delta.cpp", 21)); }
static void f_del_nt(void *p, Src *s) { s->file = "delta.cpp"; s->line = 22; operator delete(p, std::nothrow XL("delta.cpp", 22)); }
static void f_dela(void *p, Src *s) { s->file = "delta.cpp"; s->line = 23; operator delete[](p XL("delta.cpp", 23)); }
static void f_dela_nt(void *p, Src *s) { s->file = "delta.cpp"; s->line = 24; operator delete[](p, std::nothrow XL("delta.cpp", 24)); }
static void mb_del(void *p, Src *s) { s->file = "delta.cpp"; s->line = 25; _duma_deallocate(p, 1, EFA_MEMBER_DEL_ELEM XL("delta.cpp", 25)); }
static void mb_dela(void *p, Src *s) { s->file = "delta.cpp"; s->line = 26; _duma_deallocate(p, 1, EFA_MEMBER_DEL_ARRAY XL("delta.cpp", 26)); }
extern "C" {
void api_set_handler(void (*h)(void)) { std::set_new_handler(h); }
void api_nest_new(void **o, void **i, void **c) { nest_new(o, i, c); }
void api_nest_del(void *o) { nest_del(o); }
void api_throw(void) { throw MyBadAlloc(); }
const struct AllocApi api_x_alloc[] = {
  {"new", FAM_NEW, 0, 1, 0, 1, "scalar new", o_new},
  {"new_nt", FAM_NEW, 0, 1, 0, 1, "scalar new", o_new_nt},
  {"newa", FAM_NEWA, 0, 1, 0, 1, "vector new[]", o_newa},
  {"newa_nt", FAM_NEWA, 0, 1, 0, 1, "vector new[]", o_newa_nt},
  {"fnew", FAM_NEW, 1, 1, 0, 1, "scalar new", f_new},
  {"fnew_nt", FAM_NEW, 1, 1, 0, 1, "scalar new", f_new_nt},
  {"fnewa", FAM_NEWA, 1, 1, 0, 1, "vector new[]", f_newa},
  {"fnewa_nt", FAM_NEWA, 1, 1, 0, 1, "vector new[]", f_newa_nt},
  {"mnew", FAM_MNEW, 1, 1, 0, 1, "member scalar new", mb_new},
  {"mnewa", FAM_MNEWA, 1, 1, 0, 1, "member vector new[]", mb_newa},
  {"macnew16", FAM_NEW, 1, 1, 0, 1, "scalar new", mac_new16},
  {"macnewa", FAM_NEWA, 1, 1, 0, 1, "vector new[]", mac_newa},
};
const int api_x_nalloc = sizeof api_x_alloc / sizeof api_x_alloc[0];
const struct FreeApi api_x_free[] = {
  {"del", FAM_NEW, "scalar delete", 0, o_del},
  {"del_nt", FAM_NEW, "scalar delete", 0, o_del_nt},
  {"dela", FAM_NEWA, "vector delete[]", 0, o_dela},
  {"dela_nt", FAM_NEWA, "vector delete[]", 0, o_dela_nt},
  {"sdel", FAM_NEW, "scalar delete", 0, s_del},
  {"sdela", FAM_NEWA, "vector delete[]", 0, s_dela},
  {"fdel", FAM_NEW, "scalar delete", 1, f_del},
  {"fdel_nt", FAM_NEW, "scalar delete", 1, f_del_nt},
  {"fdela", FAM_NEWA, "vector delete[]", 1, f_dela},
  {"fdela_nt", FAM_NEWA, "vector delete[]", 1, f_dela_nt},
  {"mdel", FAM_MNEW, "member scalar delete", 1, mb_del},
  {"mdela", FAM_MNEWA, "member vector delete[]", 1, mb_dela},
  {"macdel", FAM_NEW, "scalar delete", 1, mac_del},
  {"macdela", FAM_NEWA, "vector delete[]", 1, mac_dela},
};
const int api_x_nfree = sizeof api_x_free / sizeof api_x_free[0];
}
