/* Every public allocation / release interface of DUMA, as one table (uses only the public headers). */
#ifndef API_H
#define API_H
#include <stddef.h>
enum Fam { FAM_C, FAM_NEW, FAM_NEWA, FAM_MNEW, FAM_MNEWA };
struct Src { const char *file; int line; };
struct AllocApi {
  const char *name;      /* used in op specs */
  int fam;               /* enum Fam */
  int src;               /* has source information */
  int cpp_zero;          /* zero size follows the C++ strategy */
  int aligned;           /* takes an alignment argument */
  int fill;              /* 1 fill byte, 0 zero, 2 string */
  const char *kind;      /* name in reports */
  void *(*fn)(size_t n, size_t al, struct Src *s);  /* null on failure; api_err set */
};
struct FreeApi {
  const char *name; int fam; const char *kind; int src;
  void (*fn)(void *p, struct Src *s);
};
#ifdef __cplusplus
extern "C" {
#endif
extern const struct AllocApi api_c_alloc[]; extern const int api_c_nalloc;
extern const struct FreeApi api_c_free[]; extern const int api_c_nfree;
extern const struct AllocApi api_p_alloc[]; extern const int api_p_nalloc;
extern const struct FreeApi api_p_free[]; extern const int api_p_nfree;
extern const struct AllocApi api_x_alloc[]; extern const int api_x_nalloc;
extern const struct FreeApi api_x_free[]; extern const int api_x_nfree;
extern int api_err;      /* errno-style result of posix_memalign; 1000 = bad_alloc thrown */
extern char *api_str;    /* string source for strdup */
void *api_m_realloc(void *p, size_t n, struct Src *s);
void *api_p_realloc(void *p, size_t n);
size_t api_m_usable(void *p);
size_t api_p_usable(void *p);
void api_check(void *p);
void api_checkall(void);
void api_report(void);
void api_init(void);
void api_newframe(void);
void api_set_below(int v);
void api_set_align(int v);
void api_set_fill(int v);
void *api_m_calloc2(size_t a, size_t b);
void *api_p_calloc2(size_t a, size_t b);
void *api_null_addr(void);
void api_set_handler(void (*h)(void));
void api_throw(void);
void api_nest_new(void **o, void **i, void **c); /* gamma.cpp 307 */
void api_nest_del(void *o); /* gamma.cpp 308, inner 306 */
#ifdef __cplusplus
}
#endif
#endif
