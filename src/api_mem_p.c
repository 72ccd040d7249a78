#define _GNU_SOURCE 1
#include <string.h>
#include "api_mem.h"
static void *w_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
static void *w_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
static void *w_strcpy(void *d, const void *s, size_t n) { (void)n; return strcpy((char *)d, (const char *)s); }
static void *w_strncpy(void *d, const void *s, size_t n) { return strncpy((char *)d, (const char *)s, n); }
static void *w_strcat(void *d, const void *s, size_t n) { (void)n; return strcat((char *)d, (const char *)s); }
static void *w_strncat(void *d, const void *s, size_t n) { return strncat((char *)d, (const char *)s, n); }
char *api_strdup_p(const char *s) { return strdup(s); }
const memfn api_mem_p[M_NFN] = {w_memcpy, w_memmove, w_strcpy, w_strncpy, w_strcat, w_strncat};
