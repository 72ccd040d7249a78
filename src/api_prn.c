/* Public macros with the source position chosen at run time. */
#include "duma.h"
#include "api_prn.h"
const char *prn_file = "f.c"; int prn_line = 1;
#undef __FILE__
#define __FILE__ prn_file
#undef __LINE__
#define __LINE__ prn_line
void *prn_malloc(size_t n) { return malloc(n); }
void *prn_calloc(size_t n) { return calloc(n, 1); }
void *prn_memalign(size_t a, size_t n) { return memalign(a, n); }
void *prn_realloc(void *p, size_t n) { return realloc(p, n); }
void prn_free(void *p) { free(p); }
void prn_check(void *p) { DUMA_CHECK(p); }
void prn_assert(int v) { DUMA_ASSERT(v); }
void prn_report(void) { DUMA_delFrame(); }
