#include <stddef.h>
extern const char *prn_file; extern int prn_line;
void *prn_malloc(size_t n);
void *prn_calloc(size_t n);
void *prn_memalign(size_t a, size_t n);
void *prn_realloc(void *p, size_t n);
void prn_free(void *p);
void prn_check(void *p);
void prn_assert(int v);
void prn_report(void);
