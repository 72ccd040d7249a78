/* C20: a whole process; argv[1] how it ends, argv[2] blocks not released, argv[3] what it does to its outputs first */
#include <stdlib.h>
#include <unistd.h>
#include <string.h>
#include <pthread.h>
#include <signal.h>
#include "duma.h"
#if defined(DUMA_NO_LEAKDETECTION) && defined(DUMA_NO_GLOBAL_MALLOC_FREE) /* neither macros nor replaced functions: DUMA's own names */
#define malloc _duma_malloc
#define free _duma_free
#endif
static void *thr(void *p) { (void)p; exit(0); }
int main(int argc, char **argv) {
  int n = atoi(argv[2]); const char *o = argv[3];
  if (strchr(o, '1')) close(1);
  if (strchr(o, '2')) close(2);
  if (strchr(o, 's')) DUMA_OUTPUT_STDOUT = 1;
  if (strchr(o, 'e')) DUMA_OUTPUT_STDERR = 1;
  if (strchr(o, 'S')) DUMA_OUTPUT_STDOUT = 0;
  if (strchr(o, 'E')) DUMA_OUTPUT_STDERR = 0;
  if (strchr(o, 'f')) DUMA_OUTPUT_FILE = (char *)"out2";
  if (strchr(o, 'F')) DUMA_OUTPUT_FILE = 0;
  (void)argc;
#ifdef WANT_EXPLICIT_INIT
  if (strchr(o, 'p')) (void)!malloc(70);
  duma_init();
#endif
#line 500 "exitp.c"
  free(malloc(40));
#line 501 "exitp.c"
  while (n-- > 0) (void)!malloc(50);
  switch (*argv[1]) {
  case 'r': return 0;
  case 'e': exit(0);
  case '_': _exit(0);
  case 't': { pthread_t t; pthread_create(&t, 0, thr, 0); pthread_join(t, 0); break; }
  case 'k': raise(SIGKILL); break;
  case 'a': { char *p = malloc(3); free(p); free(p); break; }
  }
  return 7;
}
