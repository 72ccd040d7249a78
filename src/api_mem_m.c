#include <string.h>
#include "duma.h"
#include "api_mem.h"
#ifdef DUMA_NO_LEAKDETECTION
#define memcpy _duma_memcpy
#define memmove _duma_memmove
#define strcpy _duma_strcpy
#define strncpy _duma_strncpy
#define strcat _duma_strcat
#define strncat _duma_strncat
#define strdup _duma_strdup
#endif
#line 501 "gamma_mem.c"
static void *w_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
static void *w_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
static void *w_strcpy(void *d, const void *s, size_t n) { (void)n; return strcpy((char *)d, (const char *)s); }
static void *w_strncpy(void *d, const void *s, size_t n) { return strncpy((char *)d, (const char *)s, n); }
static void *w_strcat(void *d, const void *s, size_t n) { (void)n; return strcat((char *)d, (const char *)s); }
static void *w_strncat(void *d, const void *s, size_t n) { return strncat((char *)d, (const char *)s, n); }
char *api_strdup_m(const char *s) { return strdup(s); }
const memfn api_mem_m[M_NFN] = {w_memcpy, w_memmove, w_strcpy, w_strncpy, w_strcat, w_strncat};
const int api_mem_line[M_NFN] = {501, 502, 503, 504, 505, 506};
