/* The replaced global functions, as an uninstrumented program uses them (no duma.h) */
#define _GNU_SOURCE 1
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include "api.h"
static void *p_malloc(size_t n, size_t al, struct Src *s) { (void)al; (void)s; return malloc(n); }
static void *p_calloc(size_t n, size_t al, struct Src *s) { (void)al; (void)s; return calloc(n, 1); }
static void *p_realloc0(size_t n, size_t al, struct Src *s) { (void)al; (void)s; return realloc(0, n); }
static void *p_memalign(size_t n, size_t al, struct Src *s) { (void)s; return memalign(al, n); }
static void *p_aligned(size_t n, size_t al, struct Src *s) { (void)s; return aligned_alloc(al, n); }
static void *p_posix(size_t n, size_t al, struct Src *s) { void *p = (void *)8; (void)s; api_err = posix_memalign(&p, al, n); if (api_err == 22) return 0; return p; }
static void *p_valloc(size_t n, size_t al, struct Src *s) { (void)al; (void)s; return valloc(n); }
static void *p_strdup(size_t n, size_t al, struct Src *s) { (void)al; (void)s; (void)n; return strdup(api_str); }
static void p_free(void *p, struct Src *s) { (void)s; free(p); }
static void p_realloc_free(void *p, struct Src *s) { (void)s; (void)!realloc(p, 0); }
void *api_p_realloc(void *p, size_t n) { return realloc(p, n); }
size_t api_p_usable(void *p) { return malloc_usable_size(p); }
void *api_p_calloc2(size_t a, size_t b) { return calloc(a, b); }
const struct AllocApi api_p_alloc[] = {
  {"p_malloc", FAM_C, 0, 0, 0, 1, "malloc()", p_malloc},
  {"p_calloc", FAM_C, 0, 0, 0, 0, "calloc()", p_calloc},
  {"p_realloc0", FAM_C, 0, 0, 0, 1, "realloc()", p_realloc0},
  {"p_memalign", FAM_C, 0, 0, 1, 1, "memalign()", p_memalign},
  {"p_aligned", FAM_C, 0, 0, 1, 1, "memalign()", p_aligned},
  {"p_posix", FAM_C, 0, 0, 1, 1, "posix_memalign()", p_posix},
  {"p_valloc", FAM_C, 0, 0, 2, 1, "valloc()", p_valloc},
  {"p_strdup", FAM_C, 0, 0, 0, 2, "strdup()", p_strdup},
};
const int api_p_nalloc = sizeof api_p_alloc / sizeof api_p_alloc[0];
const struct FreeApi api_p_free[] = {
  {"p_free", FAM_C, "free()", 0, p_free},
  {"p_realloc_free", FAM_C, "realloc()", 0, p_realloc_free},
};
const int api_p_nfree = sizeof api_p_free / sizeof api_p_free[0];
