/* C interfaces through the macros of duma.h (with file/line) */
#include "duma.h"
#include "api.h"
#ifdef DUMA_NO_LEAKDETECTION /* no macros in this configuration: the functions behind them */
#undef DUMA_newFrame
#undef DUMA_delFrame
#define malloc _duma_malloc
#define calloc _duma_calloc
#define free _duma_free
#define memalign _duma_memalign
#define posix_memalign _duma_posix_memalign
#define realloc _duma_realloc
#define valloc _duma_valloc
#define malloc_usable_size _duma_malloc_usable_size
#define strdup _duma_strdup
#define DUMA_newFrame() ((void)0)
#define DUMA_delFrame() ((void)0)
#endif
int api_err;
char *api_str;
#line 101 "alpha.c"
static void *m_malloc(size_t n, size_t al, struct Src *s) { s->file = "alpha.c"; s->line = 101; (void)al; return malloc(n); }
static void *m_calloc(size_t n, size_t al, struct Src *s) { s->file = "alpha.c"; s->line = 102; (void)al; return calloc(n, 1); }
static void *m_calloc2(size_t n, size_t al, struct Src *s) { s->file = "alpha.c"; s->line = 103; (void)al; return calloc(1, n); }
static void *m_realloc0(size_t n, size_t al, struct Src *s) { s->file = "alpha.c"; s->line = 104; (void)al; return realloc(0, n); }
static void *m_memalign(size_t n, size_t al, struct Src *s) { s->file = "alpha.c"; s->line = 105; return memalign(al, n); }
static void *m_posix(size_t n, size_t al, struct Src *s) { void *p = (void *)8; s->file = "alpha.c"; s->line = 106; api_err = posix_memalign(&p, al, n); if (api_err) { if (api_err == 22) return 0; return p; } return p; }
static void *m_valloc(size_t n, size_t al, struct Src *s) { s->file = "alpha.c"; s->line = 107; (void)al; return valloc(n); }
static void *m_strdup(size_t n, size_t al, struct Src *s) { s->file = "alpha.c"; s->line = 108; (void)al; (void)n; return strdup(api_str); }
#line 2000 "beta_with_a_longer_name.c"
static void m_free(void *p, struct Src *s) { s->file = "beta_with_a_longer_name.c"; s->line = 2000; free(p); }
void *api_m_realloc(void *p, size_t n, struct Src *s) { s->file = "beta_with_a_longer_name.c"; s->line = 2001; return realloc(p, n); }
size_t api_m_usable(void *p) { return malloc_usable_size(p); }
static void m_realloc_free(void *p, struct Src *s) { s->file = "beta_with_a_longer_name.c"; s->line = 2003; (void)!realloc(p, 0); }
#line 70000 "delta.c"
static void *l_malloc70k(size_t n, size_t al, struct Src *s) { s->file = "delta.c"; s->line = 70000; (void)al; return malloc(n); }
#line 32768
static void *l_malloc32k(size_t n, size_t al, struct Src *s) { s->file = "delta.c"; s->line = 32768; (void)al; return malloc(n); }
#line 65536
static void *l_calloc64k(size_t n, size_t al, struct Src *s) { s->file = "delta.c"; s->line = 65536; (void)al; return calloc(n, 1); }
#line 2000000
static void *l_strdup2m(size_t n, size_t al, struct Src *s) { s->file = "delta.c"; s->line = 2000000; (void)al; (void)n; return strdup(api_str); }
#line 16777217
static void *l_memalign16m(size_t n, size_t al, struct Src *s) { s->file = "delta.c"; s->line = 16777217; return memalign(al, n); }
#line 1 "very/long_directory_name_00/long_directory_name_01/long_directory_name_02/long_directory_name_03/long_directory_name_04/long_directory_name_05/long_directory_name_06/long_directory_name_07/long_directory_name_08/long_directory_name_09/long_directory_name_10/long_directory_name_11/source_file_with_a_long_name.c"
static void *l_malloc1(size_t n, size_t al, struct Src *s) { s->file = "very/long_directory_name_00/long_directory_name_01/long_directory_name_02/long_directory_name_03/long_directory_name_04/long_directory_name_05/long_directory_name_06/long_directory_name_07/long_directory_name_08/long_directory_name_09/long_directory_name_10/long_directory_name_11/source_file_with_a_long_name.c"; s->line = 1; (void)al; return malloc(n); }
#line 256 "a b%n.c"
static void *l_malloc256(size_t n, size_t al, struct Src *s) { s->file = "a b%n.c"; s->line = 256; (void)al; return malloc(n); }
#line 40 "api_c.c"
void *api_m_calloc2(size_t a, size_t b) { return calloc(a, b); }
void api_init(void) {
#ifdef DUMA_EXPLICIT_INIT
  duma_init();
#endif
}
void api_check(void *p) { DUMA_CHECK(p); }
void api_checkall(void) { DUMA_CHECKALL(); }
void api_report(void) { DUMA_delFrame(); }
void api_newframe(void) { DUMA_newFrame(); }
void api_set_below(int v) { DUMA_SET_PROTECT_BELOW(v); }
void api_set_align(int v) { DUMA_SET_ALIGNMENT(v); }
void api_set_fill(int v) { DUMA_SET_FILL(v); }
const struct AllocApi api_c_alloc[] = {
  {"malloc", FAM_C, 1, 0, 0, 1, "malloc()", m_malloc},
  {"calloc", FAM_C, 1, 0, 0, 0, "calloc()", m_calloc},
  {"calloc1n", FAM_C, 1, 0, 0, 0, "calloc()", m_calloc2},
  {"realloc0", FAM_C, 1, 0, 0, 1, "realloc()", m_realloc0},
  {"memalign", FAM_C, 1, 0, 1, 1, "memalign()", m_memalign},
  {"posix", FAM_C, 1, 0, 1, 1, "posix_memalign()", m_posix},
  {"valloc", FAM_C, 1, 0, 2, 1, "valloc()", m_valloc},
  {"strdup", FAM_C, 1, 0, 0, 2, "strdup()", m_strdup},
  {"l_malloc70k", FAM_C, 1, 0, 0, 1, "malloc()", l_malloc70k},
  {"l_malloc32k", FAM_C, 1, 0, 0, 1, "malloc()", l_malloc32k},
  {"l_calloc64k", FAM_C, 1, 0, 0, 0, "calloc()", l_calloc64k},
  {"l_strdup2m", FAM_C, 1, 0, 0, 2, "strdup()", l_strdup2m},
  {"l_memalign16m", FAM_C, 1, 0, 1, 1, "memalign()", l_memalign16m},
  {"l_malloc1", FAM_C, 1, 0, 0, 1, "malloc()", l_malloc1},
  {"l_malloc256", FAM_C, 1, 0, 0, 1, "malloc()", l_malloc256},
};
const int api_c_nalloc = sizeof api_c_alloc / sizeof api_c_alloc[0];
const struct FreeApi api_c_free[] = {
  {"free", FAM_C, "free()", 1, m_free},
  {"realloc_free", FAM_C, "realloc()", 1, m_realloc_free},
};
const int api_c_nfree = sizeof api_c_free / sizeof api_c_free[0];
