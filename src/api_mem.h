/* the memory and string functions: through the macros of duma.h, and as plain global functions */
#ifndef API_MEM_H
#define API_MEM_H
#include <stddef.h>
enum { M_MEMCPY, M_MEMMOVE, M_STRCPY, M_STRNCPY, M_STRCAT, M_STRNCAT, M_NFN };
typedef void *(*memfn)(void *d, const void *s, size_t n);
#ifdef __cplusplus
extern "C" {
#endif
extern const memfn api_mem_m[M_NFN], api_mem_p[M_NFN];
extern const int api_mem_line[M_NFN];
char *api_strdup_m(const char *s);
char *api_strdup_p(const char *s);
#ifdef __cplusplus
}
#endif
#endif
