/* C26: the machine that createconf examines. createconf.c is compiled with -fsanitize=thread and linked with this file instead
 * of the sanitizer's own runtime, so that every access it makes to memory is seen here first: an access the simulated machine
 * does not allow ends the process, as the signal of a real machine would.
 *   MACH_STRICT="a,b,c,d"  alignment needed by accesses of 2, 4, 8 and 16 bytes
 *   MACH_STOP=k            the k-th write ends the process
 *   MACH_PAGE=n            the page size
 * The number of writes goes to descriptor 9, when that is open. */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/syscall.h>
static unsigned long need[17], stop, n, page;
static int ready;
static void init(void) {
  const char *e; unsigned long v[4] = {1, 1, 1, 1}; int i;
  ready = 1;
  if ((e = getenv("MACH_STRICT"))) sscanf(e, "%lu,%lu,%lu,%lu", v, v + 1, v + 2, v + 3);
  for (i = 0; i <= 16; ++i) need[i] = 1;
  need[2] = v[0]; need[4] = v[1]; need[8] = v[2]; need[16] = v[3];
  if ((e = getenv("MACH_STOP"))) stop = strtoul(e, 0, 10);
  if ((e = getenv("MACH_PAGE"))) page = strtoul(e, 0, 10);
}
static void say(void) { char b[40]; int l = snprintf(b, sizeof b, "%lu\n", n); (void)!write(9, b, l); }
static void access_(void *a, unsigned long sz, int wr) {
  if (!ready) init();
  if (wr && ++n == stop) { say(); syscall(SYS_exit_group, 77); }
  if (sz <= 16 && (unsigned long)a % need[sz]) { say(); syscall(SYS_exit_group, 78); }
}
__attribute__((destructor)) static void fin(void) { say(); }
#define RW(s) void __tsan_read##s(void *a) { access_(a, s, 0); } void __tsan_write##s(void *a) { access_(a, s, 1); } \
  void __tsan_unaligned_read##s(void *a) { access_(a, s, 0); } void __tsan_unaligned_write##s(void *a) { access_(a, s, 1); } \
  void __tsan_volatile_read##s(void *a) { access_(a, s, 0); } void __tsan_volatile_write##s(void *a) { access_(a, s, 1); } \
  void __tsan_unaligned_volatile_read##s(void *a) { access_(a, s, 0); } void __tsan_unaligned_volatile_write##s(void *a) { access_(a, s, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long s) { access_(a, s, 0); }
void __tsan_write_range(void *a, unsigned long s) { access_(a, s, 1); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void *__tsan_memset(void *d, int c, unsigned long s) { return memset(d, c, s); }
void *__tsan_memcpy(void *d, const void *q, unsigned long s) { return memcpy(d, q, s); }
void *__tsan_memmove(void *d, const void *q, unsigned long s) { return memmove(d, q, s); }
long __real_sysconf(int k);
long __wrap_sysconf(int k) { if (!ready) init(); return page && k == _SC_PAGESIZE ? (long)page : __real_sysconf(k); }
int __real_getpagesize(void);
int __wrap_getpagesize(void) { if (!ready) init(); return page ? (int)page : __real_getpagesize(); }
