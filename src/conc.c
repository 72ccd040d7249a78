/* conc: all interleavings (up to a preemption bound) of small thread programs on the real library.
 *
 *   conc explore depth=N threads=T bound=P [mfail=k] prefix=OPS -- OP OP ...
 *   conc replay [same options] -- "PREFIX#OPS|OPS[|OPS]"
 *
 * The threads are coroutines of one kernel thread; the library is compiled with -fsanitize=thread against the
 * hooks below, and the pthread functions are replaced at link time by models. The scheduler may switch before
 * every lock operation, before every atomic, before every access to memory that two threads use without a
 * common lock (found by a fixpoint over the executions themselves) and around page-table system calls made
 * without a lock. At each such point every alternative is explored in a forked child. */
#define CONC 1
#include "seq.c"
#include <pthread.h>
#include <semaphore.h>

#define NT 4
enum { IDLE, RUN, BLOCKED, DONE };
struct Th { void *sp; int st; void *waiton; int err; char eh[16]; unsigned locks; int consec; u64 h; };
static struct Th T[NT]; static int nth, cur = -1; static void *mainsp;
static int preempts, bound = 2, npts, nosched; static int syspoints;
static char stacks[NT][1 << 18] __attribute__((aligned(64)));
static int tmo = 20;

/* ---- shared between the processes of one exploration */
struct Gran { up a; u8 rd, wr, any; unsigned ls; };
#define NG 8192
static struct Gran G[NG];
struct CS {
  up u[4096], cand[1024]; volatile int nu, ncand, sysunl, outlen, may, must, segvok; volatile u64 execs, capped, nvis, pruned;
  char out[1 << 16]; char trace[4096]; volatile int tracelen; char mustwhy[120];
};
static struct CS *cs;
static int outlen, tracelen, maydie, mustdie; static char mustwhy[120];
static void sync_shared(void) { cs->outlen = outlen; cs->tracelen = tracelen; cs->may = maydie; cs->must = mustdie; hx_cpy(cs->mustwhy, mustwhy, 120); }
static void trace_add(const char *s) { while (*s && tracelen < 4000) cs->trace[tracelen++] = *s++; cs->trace[tracelen] = 0; cs->tracelen = tracelen; }

/* ------------------------------------------------------------------ context switch */
__asm__(".text\n.globl co_switch\nco_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
void co_switch(void **save, void *to);
#ifdef WITH_CPP
void *__cxa_get_globals(void);
#endif
static void save_tls(struct Th *t) {
  t->err = errno;
#ifdef WITH_CPP
  char *g = (char *)__cxa_get_globals(); for (int i = 0; i < 16; ++i) t->eh[i] = g[i];
#endif
}
static void load_tls(struct Th *t) {
  errno = t->err;
#ifdef WITH_CPP
  char *g = (char *)__cxa_get_globals(); for (int i = 0; i < 16; ++i) g[i] = t->eh[i];
#endif
}
static void sw(int j) { int me = cur; if (j == me) return; save_tls(&T[me]); T[j].consec = 0; cur = j; co_switch(&T[me].sp, T[j].sp); load_tls(&T[me]); }
static void die3(void) { sync_shared(); hx_sys3(SYS_exit_group, 3, 0, 0); }

/* ------------------------------------------------------------------ judging a child that died */
static void judge_death(int st) {
  static char txt[1 << 16];
  int n = cs->outlen; for (int i = 0; i < n && i < (int)sizeof txt - 1; ++i) txt[i] = cs->out[i]; txt[n < (int)sizeof txt ? n : (int)sizeof txt - 1] = 0;
  char tail[300]; { int l = (int)hx_len(txt); hx_cpy(tail, txt + (l > 280 ? l - 280 : 0), sizeof tail); }
  char tr[160]; cs->trace[cs->tracelen < 4095 ? cs->tracelen : 4095] = 0; { int l = cs->tracelen; hx_cpy(tr, cs->trace + (l > 150 ? l - 150 : 0), sizeof tr); }
  hx_add(&sh->deaths, 1); hx_add(&sh->histories, 1);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { FAIL("hang", "no progress; schedule %s", tr); return; }
  int ab = hx_find(txt, "DUMA Abort") != 0;
  if (!cs->may && !cs->must) { FAIL(ab ? "falsealarm" : "crash", "a thread ended the process (%s %d) although every operation is legal; schedule %s: %s", WIFSIGNALED(st) ? "signal" : "exit code", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), tr, tail); return; }
  if (!ab && cs->segvok && WIFSIGNALED(st) && WTERMSIG(st) == SIGSEGV) return; /* realloc of a released block may fault on reading it */
  if (!ab) FAIL("crash", "process ended without a diagnostic; schedule %s: %s", tr, tail);
}
static int waitchild(int pid) {
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 99) hx_sys3(SYS_exit_group, 99, 0, 0);
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3)) return 0;
  judge_death(st);
  return 1;
}
static int branch(int j, int cost) { /* explore the alternative "j runs now" in a child; 1 in the child, after it was resumed */
  if (sh->nviol >= 6 || cs->execs > 400000) { if (cs->execs > 400000) cs->capped = 1; return 0; }
  int e0 = errno;
  alarm(0);
  int pid = fork();
  if (pid < 0) hx_fatal("fork");
  if (!pid) {
    alarm((unsigned)tmo);
    char b[24]; snprintf(b, sizeof b, " %s%d@%d", cost ? "!" : "", j, npts); trace_add(b);
    preempts += cost; errno = e0; if (cur < 0) { cur = j; co_switch(&mainsp, T[j].sp); } else sw(j);
    return 1;
  }
  waitchild(pid);
  sync_shared();
  alarm((unsigned)tmo);
  errno = e0;
  return 0;
}
static void deadlock(const char *w) { char b[200]; int c = 0; for (int i = 0; i < nth; ++i) c += snprintf(b + c, sizeof b - c, " T%d:%s", i, T[i].st == BLOCKED ? "blocked" : T[i].st == DONE ? "done" : "ready"); cs->trace[tracelen] = 0; FAIL("deadlock", "%s:%s; schedule%s", w, b, cs->trace + (tracelen > 120 ? tracelen - 120 : 0)); die3(); }
static void resched(void) { /* the current thread cannot go on */
  int c[NT], n = 0;
  for (int i = 0; i < nth; ++i) if (T[i].st == RUN && i != cur) c[n++] = i;
  if (!n) {
    for (int i = 0; i < nth; ++i) if (T[i].st != DONE) { if (T[cur].st == RUN) return; deadlock("all threads are blocked"); }
    int me = cur; cur = -1; co_switch(&T[me].sp, mainsp); hx_fatal("resumed a finished thread");
  }
  for (int k = 1; k < n; ++k) if (branch(c[k], 0)) return;
  char b[24]; snprintf(b, sizeof b, " %d@%d", c[0], npts); trace_add(b);
  sw(c[0]);
}
/* happens-before hashing: two executions with the same partial order of visible operations are in the same
 * state; a state already visited with no more preemptions used is not explored again */
#define NVT (1u << 20)
struct Vis { u64 k; u8 p; };
static struct Vis *vis; static u64 progid;
static struct { up a; u64 h; } hbo[512]; static int nhbo;
static void hb(up a, int kind) {
  if (cur < 0) return;
  int i = (int)(hx_mix(9, a) & 511), k = 0;
  for (; hbo[i].a && hbo[i].a != a; i = (i + 1) & 511) if (++k > 500) hx_fatal("too many objects");
  hbo[i].a = a;
  T[cur].h = hx_mix(hx_mix(T[cur].h, hbo[i].h + (u64)kind), a); hbo[i].h = T[cur].h;
}
static int visited(void) {
  u64 h = progid; for (int i = 0; i < nth; ++i) h = hx_mix(h, T[i].h + (u64)T[i].st);
  h = hx_mix(h, (u64)cur + 17); if (!h) h = 1;
  for (u64 i = h & (NVT - 1), k = 0; k < 1000; ++k, i = (i + 1) & (NVT - 1)) {
    if (vis[i].k == h) { if (vis[i].p <= preempts) return 1; vis[i].p = (u8)preempts; return 0; }
    if (!vis[i].k) { vis[i].k = h; vis[i].p = (u8)preempts; ++cs->nvis; hx_add(&sh->states, 1); return 0; }
  }
  return 0;
}
static void point(void) {
  if (cur < 0 || nosched) return;
  ++npts; ++T[cur].consec; hx_add(&sh->transitions, 1);
  if (npts > 20000) { FAIL("hang", "threads make no progress; schedule%s", cs->trace + (tracelen > 120 ? tracelen - 120 : 0)); die3(); }
  if (visited()) { ++cs->pruned; sync_shared(); hx_sys3(SYS_exit_group, 0, 0, 0); }
  if (T[cur].consec > 300) { int o = 0; for (int i = 0; i < nth; ++i) if (i != cur && T[i].st == RUN) o = 1; if (o) { resched(); return; } }
  if (preempts < bound) for (int j = 0; j < nth; ++j) if (j != cur && T[j].st == RUN) if (branch(j, 1)) return;
}

/* ------------------------------------------------------------------ models of the lock primitives */
struct Mx { void *a; int owner, cnt, kind, val; };
static struct Mx mx[32]; static int nmx;
#define MAINID 50
static int me_id(void) { return cur < 0 ? MAINID : cur; }
static struct Mx *mx_get(void *a, int kind) { for (int i = 0; i < nmx; ++i) if (mx[i].a == a) return &mx[i]; if (nmx == 32) hx_fatal("too many locks"); mx[nmx].a = a; mx[nmx].owner = -1; mx[nmx].kind = kind; return &mx[nmx++]; }
static unsigned mx_bit(struct Mx *m) { return 1u << (m - mx); }
static void take(struct Mx *m) { hb((up)m->a, 1); m->owner = me_id(); m->cnt = 1; if (cur >= 0) T[cur].locks |= mx_bit(m); }
static void drop(struct Mx *m) { hb((up)m->a, 2); m->owner = -1; m->cnt = 0; if (cur >= 0) T[cur].locks &= ~mx_bit(m); for (int i = 0; i < nth; ++i) if (T[i].st == BLOCKED && T[i].waiton == m->a) T[i].st = RUN; }
static void wait_on(void *a) { if (cur < 0) { hx_write(2, "main thread blocks for ever\n"); FAIL("deadlock", "a single thread blocks on its own lock"); die3(); } T[cur].st = BLOCKED; T[cur].waiton = a; resched(); }
static int m_lock(struct Mx *m) {
  point();
  for (;;) {
    if (m->owner < 0) { take(m); return 0; }
    if (m->owner == me_id()) { if (m->kind == 1) { ++m->cnt; return 0; } if (m->kind == 2) return EDEADLK; }
    wait_on(m->a);
  }
}
static int m_try(struct Mx *m) { point(); if (m->owner < 0) { take(m); return 0; } hb((up)m->a, 3); if (m->owner == me_id() && m->kind == 1) { ++m->cnt; return 0; } return EBUSY; }
static int m_unlock(struct Mx *m) { point(); if (m->kind && m->owner != me_id()) return EPERM; if (m->kind == 1 && --m->cnt > 0) return 0; drop(m); return 0; }
static int kind_of(pthread_mutex_t *m) { return m->__data.__kind & 3; }
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { int r = __real_pthread_mutex_init(m, a); struct Mx *x = mx_get(m, 0); x->kind = kind_of(m); x->owner = -1; return r; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { (void)m; return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return m_lock(mx_get(m, kind_of(m))); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return m_try(mx_get(m, kind_of(m))); }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { (void)t; return m_lock(mx_get(m, kind_of(m))); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return m_unlock(mx_get(m, kind_of(m))); }
int __wrap_pthread_spin_init(pthread_spinlock_t *m, int s) { (void)s; mx_get((void *)m, 0)->owner = -1; return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t *m) { return m_lock(mx_get((void *)m, 0)); }
int __wrap_pthread_spin_trylock(pthread_spinlock_t *m) { return m_try(mx_get((void *)m, 0)); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *m) { return m_unlock(mx_get((void *)m, 0)); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { return m_lock(mx_get(m, 0)); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return m_lock(mx_get(m, 0)); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { return m_unlock(mx_get(m, 0)); }
static struct Mx *sm_get(sem_t *s) { struct Mx *m = mx_get(s, 3); return m; }
int __wrap_sem_init(sem_t *s, int p, unsigned v) { (void)p; struct Mx *m = sm_get(s); m->val = (int)v; return 0; }
int __wrap_sem_wait(sem_t *s) { struct Mx *m = sm_get(s); point(); while (m->val <= 0) wait_on(s); hb((up)s, 1); --m->val; if (cur >= 0) T[cur].locks |= mx_bit(m); return 0; }
int __wrap_sem_trywait(sem_t *s) { struct Mx *m = sm_get(s); point(); hb((up)s, 3); if (m->val <= 0) { errno = EAGAIN; return -1; } --m->val; if (cur >= 0) T[cur].locks |= mx_bit(m); return 0; }
int __wrap_sem_post(sem_t *s) { struct Mx *m = sm_get(s); point(); hb((up)s, 2); ++m->val; if (cur >= 0) T[cur].locks &= ~mx_bit(m); for (int i = 0; i < nth; ++i) if (T[i].st == BLOCKED && T[i].waiton == s) T[i].st = RUN; return 0; }
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) { struct Mx *m = mx_get(o, 1); m_lock(m); if (!m->val) { m->val = 1; f(); } m_unlock(m); return 0; }
pthread_t __real_pthread_self(void);
pthread_t __wrap_pthread_self(void) { if (cur < 0) return __real_pthread_self(); return (pthread_t)(0x7100000000ul + 0x1000ul * (unsigned)cur); }
static void yield_(void) { if (cur < 0) return; point(); for (int i = 0; i < nth; ++i) if (i != cur && T[i].st == RUN) { resched(); return; } }
int __wrap_sched_yield(void) { yield_(); return 0; }
int __wrap_usleep(unsigned u) { (void)u; yield_(); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { (void)a; (void)b; yield_(); return 0; }
#ifdef WITH_CPP
typedef void (*handler_t)(void);
handler_t __real__ZSt15set_new_handlerPFvvE(handler_t h);
handler_t __wrap__ZSt15set_new_handlerPFvvE(handler_t h) { point(); hb(77, 1); return __real__ZSt15set_new_handlerPFvvE(h); }
handler_t __real__ZSt15get_new_handlerv(void);
handler_t __wrap__ZSt15get_new_handlerv(void) { point(); hb(77, 1); return __real__ZSt15get_new_handlerv(); }
#endif

/* ------------------------------------------------------------------ system calls */
static void sys_point(void) { if (cur < 0 || nosched) return; if (!T[cur].locks) cs->sysunl = 1; if (syspoints) { point(); hb(88, 1); } }
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) { sys_point(); void *r = flt_hit(0) ? MAP_FAILED : __real_mmap(a, n, p, f, fd, o); int e = errno; sys_point(); errno = e; return r; }
void *__wrap_mmap64(void *a, size_t n, int p, int f, int fd, off_t o) { return __wrap_mmap(a, n, p, f, fd, o); }
int __wrap_munmap(void *a, size_t n) { sys_point(); int r = flt_hit(2) ? -1 : __real_munmap(a, n); int e = errno; sys_point(); errno = e; return r; }
int __wrap_mprotect(void *a, size_t n, int p) { sys_point(); int r = flt_hit(1) ? -1 : __real_mprotect(a, n, p); int e = errno; sys_point(); errno = e; return r; }
static char rep[NT][2][8192]; static int replen[NT][2], nrep[NT], inrep[NT];
ssize_t __wrap_write(int fd, const void *b, size_t n) {
  const char *s = (const char *)b;
  if (cur < 0) return hx_sys3(SYS_write, fd, (long)b, (long)n);
  for (size_t i = 0; i < n && outlen < (int)sizeof cs->out - 1; ++i) cs->out[outlen++] = s[i];
  cs->outlen = outlen;
  if (inrep[cur]) { int k = nrep[cur] - 1; for (size_t i = 0; i < n && replen[cur][k] < 8190; ++i) rep[cur][k][replen[cur][k]++] = s[i]; }
  return (ssize_t)n;
}

/* ------------------------------------------------------------------ memory accesses (instrumented code) */
static int in_u(up a) { u64 h = hx_mix(3, a) & 4095; for (;; h = (h + 1) & 4095) { if (cs->u[h] == a) return 1; if (!cs->u[h]) return 0; } }
static void add_u(up a) {  if (cs->nu > 3000) return; u64 h = hx_mix(3, a) & 4095; while (cs->u[h]) h = (h + 1) & 4095; cs->u[h] = a; cs->nu++; }
static void acc(up a, size_t n, int w) {
  if (cur < 0 || nosched || !n) return;
  if (a >= (up)stacks && a < (up)stacks + sizeof stacks) return;
  if (n > 8192) n = 8192;
  up last = (a + n - 1) & ~(up)7; int hit = 0;
  for (up g = a & ~(up)7; g <= last; g += 8) {
    u64 h = hx_mix(5, g) & (NG - 1); int k = 0;
    for (; G[h].a && G[h].a != g && k < 200; h = (h + 1) & (NG - 1)) ++k;
    if (k == 200) hx_fatal("access table full");
    struct Gran *e = &G[h]; u8 b = (u8)(1 << cur);
    if (!e->a) { e->a = g; e->ls = ~0u; }
    if (w) e->wr |= b;
    e->rd |= b; e->ls &= T[cur].locks;
    if (in_u(g)) hit = 1;
    else if (e->wr && (e->rd & (e->rd - 1)) && !e->ls) { int c = 0; while (c < cs->ncand && cs->cand[c] != g) ++c; if (c == cs->ncand && c < 1023) cs->cand[cs->ncand++] = g; }
  }
  if (hit) { point(); for (up g = a & ~(up)7; g <= last; g += 8) if (in_u(g)) hb(g, w); }
}
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *p) { acc((up)p, n, 0); } void __tsan_write##n(void *p) { acc((up)p, n, 1); } void __tsan_unaligned_read##n(void *p) { acc((up)p, n, 0); } void __tsan_unaligned_write##n(void *p) { acc((up)p, n, 1); } void __tsan_volatile_read##n(void *p) { acc((up)p, n, 0); } void __tsan_volatile_write##n(void *p) { acc((up)p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { acc((up)p, n, 0); }
void __tsan_write_range(void *p, unsigned long n) { acc((up)p, n, 1); }
void __tsan_vptr_update(void **p, void *v) { (void)v; acc((up)p, 8, 1); }
void __tsan_vptr_read(void **p) { acc((up)p, 8, 0); }
#define AT(n, t) \
  t __tsan_atomic##n##_load(const volatile t *p, int o) { (void)o; point(); hb((up)p, 1); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##n##_store(volatile t *p, t v, int o) { (void)o; point(); hb((up)p, 1); __atomic_store_n(p, v, 5); } \
  t __tsan_atomic##n##_exchange(volatile t *p, t v, int o) { (void)o; point(); hb((up)p, 1); return __atomic_exchange_n(p, v, 5); } \
  t __tsan_atomic##n##_fetch_add(volatile t *p, t v, int o) { (void)o; point(); hb((up)p, 1); return __atomic_fetch_add(p, v, 5); } \
  t __tsan_atomic##n##_fetch_sub(volatile t *p, t v, int o) { (void)o; point(); hb((up)p, 1); return __atomic_fetch_sub(p, v, 5); } \
  t __tsan_atomic##n##_fetch_and(volatile t *p, t v, int o) { (void)o; point(); hb((up)p, 1); return __atomic_fetch_and(p, v, 5); } \
  t __tsan_atomic##n##_fetch_or(volatile t *p, t v, int o) { (void)o; point(); hb((up)p, 1); return __atomic_fetch_or(p, v, 5); } \
  t __tsan_atomic##n##_fetch_xor(volatile t *p, t v, int o) { (void)o; point(); hb((up)p, 1); return __atomic_fetch_xor(p, v, 5); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile t *p, t *e, t v, int o, int f) { (void)o; (void)f; point(); hb((up)p, 1); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile t *p, t *e, t v, int o, int f) { (void)o; (void)f; point(); hb((up)p, 1); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
  t __tsan_atomic##n##_compare_exchange_val(volatile t *p, t e, t v, int o, int f) { (void)o; (void)f; point(); hb((up)p, 1); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int o) { (void)o; }
void __tsan_atomic_signal_fence(int o) { (void)o; }
void *__real_memset(void *, int, size_t);
void *__wrap_memset(void *p, int c, size_t n) { if (cur >= 0) acc((up)p, n, 1); volatile u8 *q = (volatile u8 *)p; if (n > 512) return __real_memset(p, c, n); for (size_t i = 0; i < n; ++i) q[i] = (u8)c; return p; }

/* ------------------------------------------------------------------ thread programs */
#define MAXOPS 400
static struct Op ops[MAXOPS]; static int nops;
static struct Op prog[NT][8]; static int plen[NT];
static int own[MAXB]; static long bs[MAXB], be[MAXB], ds[MAXB], de[MAXB]; /* event times of birth and death: start, end */
static long now_; static struct { long ca, sa, cd, sd; } ev[512];
static long ca, sa, cd, sd, lend[NT][2], lbeg[NT][2];
static int nrel_shared, nret_shared, mfail, dsite; static int pcstep[NT];
static int delline[MAXB]; static const char *delfile[MAXB];
static void event(void) { hb(99, 1); ++now_; if (now_ < 512) { ev[now_].ca = ca; ev[now_].sa = sa; ev[now_].cd = cd; ev[now_].sd = sd; } }
static struct Blk *mine(int t, int w) { /* newest (0,1,..) or oldest (-1) live block of thread t; the shared block 0 is nobody's */
  int k = 0;
  if (w < 0) { for (int i = 0; i < nL; ++i) if (own[L[i]] == t) return &B[L[i]]; return 0; }
  for (int i = nL - 1; i >= 0; --i) if (own[L[i]] == t && k++ == w) return &B[L[i]];
  return 0;
}
static struct Blk *reg(int t, up p, size_t n, int fam, const char *kind, int src, const char *file, int line, size_t al, long st) {
  struct Blk *b = newblk(); own[b - B] = t; bs[b - B] = st; be[b - B] = now_; ds[b - B] = de[b - B] = 0; delfile[b - B] = 0;
  b->p = p; b->n = n; b->fam = fam; b->kind = kind; b->src = src; b->file = file; b->line = line; b->below = (int)cf.below; b->al = al; b->zero = n == 0;
  return b;
}
static void own_contents(struct Blk *b) { if (b->zero || b->corrupt) return; volatile u8 *q = (volatile u8 *)b->p; for (size_t k = 0; k < b->n; ++k) if (q[k] != patbyte(b, k)) { FAIL("data", "block %#lx size %lu of thread %d lost its contents at offset %lu", b->p, b->n, own[b - B], k); die3(); } }
static void gone(struct Blk *b) {
  if (cf.pfree >= 0 || cf.maxalloc > 0) return;
  hx_add(&sh->probes, 1);
  if (!hx_faults(b->p, 0) || (b->n && !hx_faults(b->p + b->n - 1, 1))) FAIL("freed", "released block %#lx size %lu is still accessible", b->p, b->n);
}
static void must(const char *w) { mustdie = 1; hx_cpy(mustwhy, w, sizeof mustwhy); sync_shared(); }
static void may(void) { maydie = 1; sync_shared(); }
static int t_hcalls[NT];
#ifdef WITH_CPP
static void c_on_new(void) { if (cur >= 0) { if (++t_hcalls[cur] > 50) { FAIL("null", "new-handler is called again and again"); die3(); } if (t_hcalls[cur] >= 2) api_throw(); } }
#endif
void DUMA_get_sem(void); int DUMA_rel_sem(int);
static void conc_op(struct Op *o, int t) {
  struct Src s = {0, 0}; struct Blk *b; long st; int nv = (int)sh->nviol;
  event(); st = now_;
  switch (o->k) {
  case 'A': {
    if (o->a->fill == 2) { for (long i = 0; i + 1 < o->n; ++i) strsrc[i] = (char)('a' + i % 23); strsrc[o->n - 1] = 0; api_str = strsrc; }
    size_t n = (size_t)o->n; api_err = 0; t_hcalls[t] = 0; ++sa; event(); st = now_;
    up p = (up)o->a->fn(n, (size_t)o->al, &s);
    int nt = hx_find(o->a->name, "_nt") != 0, isnew = o->a->fam == FAM_NEW || o->a->fam == FAM_NEWA;
    ++ca; event();
    if (!p) {
      if (!mfail || !flt.fired) { FAIL("null", "%s(%ld) returned NULL", o->a->name, o->n); break; }
      if (cf.failexit && !o->a->cpp_zero) FAIL("failexit", "%s returned NULL although exit-on-failure is set", o->a->name);
      if (isnew && t_hcalls[t] != 2) FAIL("null", "%s failed after %d calls of the new-handler, which throws at call 2", o->a->name, t_hcalls[t]);
      (void)nt; ++m_noblk; break;
    }
    b = reg(t, p, n, o->a->fam, o->a->kind, o->a->src, s.file, s.line, n ? eff_align(o->a, n, (size_t)o->al) : 1, st); ++m_allocs;
    if (n) check_new(b, o->a, o->a->fill, 0, 0);
    probe(b);
    break; }
  case 'F': {
    b = mine(t, o->which); if (!b) hx_fatal("no block");
    own_contents(b);
    if (b->corrupt) must("release of a block with damaged padding");
    const struct FreeApi *f = o->f ? o->f : auto_f(b->fam);
    kill_blk(b); ++sd; event(); ds[b - B] = now_;
    f->fn((void *)b->p, &s);
    if (f->src) { delfile[b - B] = s.file; delline[b - B] = s.line; }
    ++cd; event(); de[b - B] = now_; ++m_frees;
    gone(b);
    break; }
  case 'R': {
    b = mine(t, o->which); if (!b) hx_fatal("no block");
    own_contents(b); size_t oldn = b->n; int id = (int)(b - B);
    if (b->fam != FAM_C) hx_fatal("realloc of a C++ block");
    if (b->corrupt) must("realloc of a block with damaged padding");
    kill_blk(b); ++sd; ++sa; event(); ds[id] = st = now_;
    up p = (up)(hx_eq(o->mode, "m") ? api_m_realloc((void *)b->p, (size_t)o->n, &s) : api_p_realloc((void *)b->p, (size_t)o->n));
    ++ca; ++cd; event(); b = &B[id]; de[id] = now_;
    if (o->n == 0) { if (p) FAIL("data", "realloc(p, 0) returned %#lx", p); --sa; --ca; ++m_frees; gone(b); break; }
    if (!p) {
      if (!mfail || !flt.fired) { FAIL("null", "realloc(p, %ld) returned NULL", o->n); break; }
      /* the old block stays: re-enter it */
      --nD; L[nL++] = id; b->live = 1; ds[id] = de[id] = 0; --sd; --cd; ++m_noblk; own_contents(b);
      break;
    }
    static const struct AllocApi dummy = {"realloc", FAM_C, 0, 0, 0, 1, "", 0};
    struct Blk *nb = reg(t, p, (size_t)o->n, FAM_C, "realloc()", hx_eq(o->mode, "m"), s.file, s.line, eff_align(&dummy, (size_t)o->n, 0), st);
    ++m_allocs; ++m_frees;
    check_new(nb, 0, 0, &B[id], oldn); probe(nb); gone(&B[id]);
    break; }
  case 'U': { b = mine(t, o->which); if (!b) hx_fatal("no block"); size_t z = hx_eq(o->mode, "m") ? api_m_usable((void *)b->p) : api_p_usable((void *)b->p); event(); if (z != b->n) FAIL("usable", "usable size of a block of %lu bytes reported as %lu", b->n, z); break; }
  case 'K': if (o->which == -2) api_checkall(); else { b = mine(t, o->which); if (!b) hx_fatal("no block"); if (b->corrupt) must("check of a block with damaged padding"); api_check((void *)b->p); } event(); break;
  case 'W': { int ok; b = mine(t, o->which); up a = slack_addr(b, o->cls, &ok); if (!ok) break; may(); *(volatile u8 *)a ^= (u8)o->n; b->corrupt = 1; break; }
  case 'L': if (nrep[t] < 2) { int k = nrep[t]++; lbeg[t][k] = now_; inrep[t] = 1; api_report(); inrep[t] = 0; event(); lend[t][k] = now_; rep[t][k][replen[t][k]] = 0; } break;
  case 'Z': api_newframe(); break;
  case 'D': { /* operations on the shared block */
    b = &B[0];
    if (o->f || hx_eq(o->mode, "realloc")) { ++nrel_shared; if (b->live) { kill_blk(b); ds[0] = now_; } event(); may();
      if (o->f) { o->f->fn((void *)b->p, &s); ++m_frees; ++sd; ++cd; }
      else { st = now_; up p = (up)api_m_realloc((void *)b->p, 77, &s); ++m_frees; ++m_allocs; ++sd; ++cd; ++sa; ++ca; event(); struct Blk *nb = reg(t, p, 77, FAM_C, "realloc()", 1, s.file, s.line, 1, st); static const struct AllocApi dummy = {"realloc", FAM_C, 0, 0, 0, 1, "", 0}; nb->al = eff_align(&dummy, 77, 0); check_new(nb, 0, 0, b, b->n); }
      event(); de[0] = now_; if (++nret_shared > 1) { FAIL("bad", "a block was released twice, and both calls returned; schedule%s", cs->trace); die3(); }
    } else { int was = nrel_shared; if (was) may(); if (hx_eq(o->mode, "usable")) { size_t z = api_m_usable((void *)b->p); if (z != b->n) FAIL("usable", "usable size %lu, expected %lu", z, b->n); } else api_check((void *)b->p); }
    break; }
#ifdef WITH_CPP
  case 'N': { /* object whose destructor releases two more */
    void *x, *y, *z; sa += 3; event(); st = now_; api_nest_new(&x, &y, &z); ca += 3; event(); m_allocs += 3;
    struct Blk *bx = reg(t, (up)x, 56, FAM_NEW, "scalar new", 1, "gamma.cpp", 307, 8, st), *by = reg(t, (up)y, 24, FAM_NEW, "scalar new", 1, "gamma.cpp", 307, 8, st), *bz = reg(t, (up)z, 33, FAM_C, "malloc()", 1, "gamma.cpp", 307, 1, st);
    bx->al = by->al = 1; if (bx->n % (size_t)cf.align || by->n % (size_t)cf.align) { bx->al = by->al = (size_t)cf.align; }
    kill_blk(bx); kill_blk(by); kill_blk(bz); sd += 3; event(); ds[bx - B] = ds[by - B] = ds[bz - B] = now_;
    api_nest_del(x); cd += 3; event(); de[bx - B] = de[by - B] = de[bz - B] = now_; m_frees += 3;
    delfile[bx - B] = delfile[by - B] = delfile[bz - B] = "gamma.cpp"; delline[bx - B] = 308; delline[by - B] = delline[bz - B] = 306;
    gone(bx); gone(by); gone(bz);
    break; }
#endif
  case 'Q': { /* what the delete statement does with the lock: take it twice, give it back twice */
    static int inq;
    DUMA_get_sem(); if (inq) FAIL("lock", "two threads hold the lock; schedule%s", cs->trace); inq = 1; hb(98, 1);
    DUMA_get_sem(); point(); if (DUMA_rel_sem(7) != 7) FAIL("lock", "DUMA_rel_sem changes its argument"); point(); inq = 0; hb(98, 1); DUMA_rel_sem(0);
    break; }
  default: hx_fatal(o->text);
  }
  if ((int)sh->nviol != nv) die3();
  if (mustdie && (o->k == 'F' || o->k == 'R' || o->k == 'D' || o->k == 'K')) { FAIL(o->k == 'D' ? "bad" : "detect", "%s, but the call returned; schedule%s", mustwhy, cs->trace); die3(); }
}
static void entry(void) {
  int t = cur; load_tls(&T[t]);
  for (int i = 0; i < plen[t]; ++i) { pcstep[t] = i + 1; conc_op(&prog[t][i], t); T[t].consec = 0; }
  T[t].st = DONE;
  resched();
  hx_fatal("finished thread resumed");
}
static void judge_report(int t, int k) {
  const char *txt = rep[t][k]; long l0 = lbeg[t][k], l1 = lend[t][k];
  long entries = 0; const char *q = txt; while ((q = hx_find(q, "DUMA: ptr="))) { ++entries; ++q; }
  long minx = 0, maxx = 0;
  for (int i = 0; i < nB; ++i) {
    struct Blk *b = &B[i]; int isrep = cf.all || b->src; long mn = 0, mxn = 0; int dup = 0;
    for (int j = 0; j < nB; ++j) if (B[j].p == b->p && (cf.all || B[j].src)) { if (j < i) dup = 1; int m1 = be[j] < l0 && (!ds[j] || ds[j] > l1), m0 = (de[j] && de[j] < l0) || bs[j] > l1; if (m1) ++mn, ++mxn; else if (!m0) ++mxn; }
    { int m1 = be[i] < l0 && (!ds[i] || ds[i] > l1), m0 = (de[i] && de[i] < l0) || bs[i] > l1; if (!isrep) { if (m1) ++minx, ++maxx; else if (!m0) ++maxx; } }
    if (dup || !isrep) continue;
    char z[80]; snprintf(z, sizeof z, "ptr=0x%lx ", (unsigned long)b->p);
    long c = 0; const char *hit = 0; q = txt; while ((q = hx_find(q, z))) { ++c; hit = q; ++q; }
    if (c < mn || c > mxn) { FAIL("leak", "concurrent leak report of thread %d lists block %#lx %ld times, %ld..%ld expected; schedule%s", t, b->p, c, mn, mxn, cs->trace); return; }
    if (hit && mxn == 1) { char line[300]; size_t x = 0; while (hit[x] && hit[x] != '\n' && x < 299) { line[x] = hit[x]; ++x; } line[x] = 0; char w[60]; snprintf(w, sizeof w, "size=%lu type='%s'", b->n, b->kind); int one = 0; for (int j = 0; j < nB; ++j) if (B[j].p == b->p) ++one; if (one == 1) { if (!hx_find(line, w)) { FAIL("leak", "concurrent leak report: '%s', expected %s", line, w); return; } if (b->src) { snprintf(w, sizeof w, "%s(%d)", b->file, b->line); if (!hx_find(line, w)) { FAIL("leak", "concurrent leak report: '%s', expected %s", line, w); return; } } } }
  }
  long r = 0, x = 0; q = hx_find(txt, "Reported "); if (q) r = hx_num(q + 9); q = hx_find(txt, "There are "); if (q) x = hx_num(q + 10);
  x -= rep_base_extra; r -= rep_base_n;
  if (r != entries - rep_base_n) { FAIL("leak", "concurrent leak report prints %ld entries, total says %ld", entries, r); return; }
  if ((x < minx || x > maxx) && !mfail) { FAIL("leak", "concurrent leak report counts %ld blocks without source, %ld..%ld expected", x, minx, maxx); return; }
  if (cf.show && !mfail) {
    const char *a = hx_find(txt, "  Allocation(s): "), *d = hx_find(txt, "Deallocation(s): ");
    if (!a || !d) { FAIL("leak", "allocation statistics are missing from the report"); return; }
    long na = hx_num(a + 17) - cnt_base_a, nd = hx_num(d + 17) - cnt_base_d; int ok = 0;
    for (long i = l0; i <= l1 && i < 512; ++i) if (ev[i].ca <= na && na <= ev[i].sa && ev[i].cd <= nd && nd <= ev[i].sd) ok = 1;
    if (!ok) FAIL("leak", "concurrent leak report shows %ld allocations and %ld deallocations, which never was the state of the heap; schedule%s", na, nd, cs->trace);
  }
}
static void finish_run(void) { /* all threads are done; back on the main stack */
  cur = -1; nosched = 1; flt.on = 0;
  hx_add(&sh->histories, 1); ++cs->execs;
  if (mustdie) { FAIL("bad", "%s, but every operation returned; schedule%s", mustwhy, cs->trace); die3(); }
  for (int i = 0; i < nmx; ++i) if (mx[i].kind != 3 && mx[i].owner >= 0) { FAIL("lock", "the lock is still held after all operations returned; schedule%s", cs->trace); die3(); }
  for (int t = 0; t < nth; ++t) for (int k = 0; k < nrep[t]; ++k) { judge_report(t, k); if (sh->nviol) die3(); }
  check_pages("after all threads finished"); check_contents("after all threads finished");
  if (sh->nviol) { for (u64 i = 0; i < 1; ++i) { char w[400]; snprintf(w, sizeof w, "%.240s; schedule%.120s", sh->v[0].what, cs->trace); if (!hx_find(sh->v[0].what, "; schedule")) hx_cpy(sh->v[0].what, w, sizeof w); } die3(); }
  do_leak_report();
  if (sh->nviol) die3();
  if (dsite) { /* the site a released block is attributed to */
    for (int i = 0; i < nD && i < 12; ++i) {
      struct Blk *b = &B[D[i]]; if (b == &B[0] && !de[0]) continue;
      int fd = capfd[0]; hx_clear(fd); int pid = fork();
      if (!pid) { dup2(fd, 2); struct Src z; auto_f(b->fam)->fn((void *)b->p, &z); hx_sys3(SYS_exit_group, 0, 0, 0); }
      int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
      const char *txt = hx_readcap(fd);
      char w[80]; snprintf(w, sizeof w, "%s(%d)", delfile[b - B] ? delfile[b - B] : "gamma.cpp", delline[b - B]);
      if (!hx_find(txt, "already freed")) { FAIL("bad", "released block %#lx can be released again after the threads finished", b->p); die3(); }
      if (delfile[b - B] ? !hx_find(txt, w) : (hx_find(txt, "gamma.cpp(") && !(b->file && hx_eq(b->file, "gamma.cpp")))) { FAIL("site", "block released %s%s is attributed to another place; schedule%s: %s", delfile[b - B] ? "at " : "without source information", delfile[b - B] ? w : "", cs->trace, txt); die3(); }
    }
  }
  /* the heap still works */
  struct Src z; void *p = api_c_alloc[0].fn(50, 0, &z); if (!p) FAIL("null", "malloc fails after the threads finished"); else api_c_free[0].fn(p, &z);
  api_checkall();
  check_pages("final"); if (sh->nviol) die3();
  hx_sys3(SYS_exit_group, 0, 0, 0);
}
static void run_program(void) { /* in a forked child */
  static const struct Th zt;
  for (int t = 0; t < nth; ++t) {
    T[t] = zt; T[t].st = RUN;
    u64 *sp = (u64 *)(stacks[t] + sizeof stacks[t]);
    *--sp = 0; *--sp = (u64)(up)entry; for (int i = 0; i < 6; ++i) *--sp = 0;
    T[t].sp = sp;
  }
  ca = sa = m_allocs; cd = sd = m_frees;
  if (mfail) { flt.type = 0; flt.k = mfail; flt.persist = 1; flt.fired = 0; flt.on = 1; ncall[0] = 0;
#ifdef WITH_CPP
    api_set_handler(c_on_new);
#endif
  }
  alarm((unsigned)tmo);
  sync_shared();
  for (int t = 1; t < nth; ++t) if (branch(t, 0)) finish_run();
  cur = 0; co_switch(&mainsp, T[0].sp);
  finish_run();
}
static const char *prefix_s = "";
static int feasible(void) {
  int rel = 0, last = 0;
  for (int t = 0; t < nth; ++t) {
    int have = 0; for (int i = 0; i < nL; ++i) if (own[L[i]] == t) ++have;
    for (int i = 0; i < plen[t]; ++i) { struct Op *o = &prog[t][i]; if (o->k == 'A') ++have; else if (o->k == 'F') { if (have < 1 || (o->which > 0 && have <= o->which)) return 0; --have; } else if (o->k == 'R') { if (have < 1) return 0; if (!o->n) --have; } else if (o->k == 'U' || o->k == 'W' || (o->k == 'K' && o->which != -2)) { if (have < 1) return 0; } if (o->k == 'D') ++rel; }
    (void)last;
  }
  (void)rel;
  return 1;
}
static void explore_program(void) {
  size_t c = 0; for (const char *s = prefix_s; *s && c < sizeof curops - 3; ++s) curops[c++] = *s;
  curops[c++] = '#';
  for (int t = 0; t < nth; ++t) { if (t) curops[c++] = '|'; for (int i = 0; i < plen[t]; ++i) { if (i) curops[c++] = ';'; for (const char *s = prog[t][i].text; *s && c < sizeof curops - 3; ++s) curops[c++] = *s; } }
  curops[c] = 0;
  hx_add(&sh->execs, 1);
  cs->segvok = 0; for (int t = 0; t < nth; ++t) for (int i = 0; i < plen[t]; ++i) if (prog[t][i].k == 'D' && hx_eq(prog[t][i].mode, "realloc")) cs->segvok = 1;
  for (int it = 0; it < 12; ++it) {
    u64 h0 = sh->histories, d0 = sh->deaths;
    cs->ncand = 0; cs->execs = 0; syspoints = cs->sysunl; progid = hx_mix(progid, 77 + it); if (cs->nvis > NVT / 2) { for (u64 q = 0; q < NVT; ++q) vis[q].k = 0; cs->nvis = 0; } tracelen = 0; cs->trace[0] = 0; outlen = 0; npts = 0; sync_shared();
    int pid = fork(); if (pid < 0) hx_fatal("fork");
    if (!pid) run_program();
    waitchild(pid);
    if (sh->nviol) return;
    int grow = cs->sysunl != syspoints;
    for (int i = 0; i < cs->ncand; ++i) { add_u(cs->cand[i]); grow = 1; }
    if (!grow) { hx_add(&sh->aux[0], 1); break; }
    hx_add(&sh->aux[1], 1);
    (void)h0; (void)d0;
  }
  hx_add(&sh->points, cs->execs);
  if (cs->capped) { hx_add(&sh->aux[2], 1); cs->capped = 0; }
  sh->aux[3] = (u64)cs->nu; sh->aux[4] = cs->pruned;
}
static void pre(int argc, char **argv, char **envp) { (void)argc; (void)argv; (void)envp; sh = (struct Shared *)hx_mmap_shared(sizeof *sh); cs = (struct CS *)hx_mmap_shared(sizeof *cs); foreign = (u8 *)hx_mmap_shared(4096); vis = (struct Vis *)hx_mmap_shared(NVT * sizeof *vis); hx_snapshot_base(); }
__attribute__((section(".preinit_array"), used)) static void (*pre_p)(int, char **, char **) = pre;
static void run_prefix(const char *s) {
  while (*s) {
    char t[72]; size_t c = 0; while (*s && *s != ';' && c < 71) t[c++] = *s++; t[c] = 0; while (*s == ';') ++s;
    if (!c) continue;
    struct Op o; parse_op(t, &o); struct Exp e; predict(&o, &e); if (!enabled(&o)) hx_fatal("prefix operation is not possible"); exec_op(&o, &e);
  }
  /* the first block is shared, the others belong to the threads in turn */
  for (int i = 0, k = 0; i < nB; ++i) { own[i] = i == 0 ? NT : B[i].live ? k++ % nth : NT; bs[i] = be[i] = 0; }
}
static void parse_c(const char *t, struct Op *o) {
  if (t[0] == 'D' && t[1] == ':') { for (size_t i = 0; i < sizeof *o; ++i) ((volatile char *)o)[i] = 0; hx_cpy(o->text, t, sizeof o->text); o->k = 'D'; o->f = find_f(t + 2); hx_cpy(o->mode, t + 2, 16); return; }
  if (t[0] == 'N' || t[0] == 'Q') { for (size_t i = 0; i < sizeof *o; ++i) ((volatile char *)o)[i] = 0; hx_cpy(o->text, t, sizeof o->text); o->k = t[0]; return; }
  parse_op(t, o);
}
int main(int argc, char **argv, char **envp) {
  const char *mode = argc > 1 ? argv[1] : "", *statef = 0; int depth = 1, shardi = 0, nshards = 1, foreignok = 0, asym = 0;
  int per = personality(0xffffffff);
  if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && personality((unsigned long)per | ADDR_NO_RANDOMIZE) >= 0) { if (envn(envp, "HX_NOASLR", 0) == 0) { static char *ne[512]; int i = 0; for (; envp[i] && i < 500; ++i) ne[i] = envp[i]; ne[i++] = (char *)"HX_NOASLR=1"; ne[i] = 0; execve("/proc/self/exe", argv, ne); } }
  read_cf(envp); hx_install_segv();
  for (int i = 0; i < 64; ++i) capfd[i] = (int)hx_memfd();
  nth = 2; int i = 2; const char *pfx = "";
  for (; i < argc && !hx_eq(argv[i], "--"); ++i) {
    char *a = argv[i];
    if (hx_pre(a, "depth=")) depth = (int)hx_num(a + 6);
    else if (hx_pre(a, "threads=")) nth = (int)hx_num(a + 8);
    else if (hx_pre(a, "bound=")) bound = (int)hx_num(a + 6);
    else if (hx_pre(a, "shard=")) shardi = (int)hx_num(a + 6);
    else if (hx_pre(a, "nshards=")) nshards = (int)hx_num(a + 8);
    else if (hx_pre(a, "timeout=")) tmo = (int)hx_num(a + 8);
    else if (hx_pre(a, "mfail=")) mfail = (int)hx_num(a + 6);
    else if (hx_pre(a, "dsite=")) dsite = (int)hx_num(a + 6);
    else if (hx_pre(a, "asym=")) asym = (int)hx_num(a + 5);
    else if (hx_pre(a, "foreign=")) foreignok = (int)hx_num(a + 8);
    else if (hx_pre(a, "states=")) statef = a + 7;
    else if (hx_pre(a, "prefix=")) pfx = a + 7;
    else hx_fatal(a);
  }
  if (i < argc) ++i;
  rep_base_n = -1; (void)foreignok;
  hx_cpy(curops, "(start)", sizeof curops);
  static char rp[600];
  if (hx_eq(mode, "replay")) { hx_cpy(rp, i < argc ? argv[i] : "", sizeof rp); char *h = (char *)hx_find(rp, "#"); if (!h) { hx_report(1); return 0; } *h++ = 0; pfx = rp; nth = 1; for (char *q = h; *q; ++q) if (*q == '|') ++nth; }
  prefix_s = pfx;
  { int sv = dup(2), dn = open("/dev/null", O_WRONLY); dup2(dn, 2); do_leak_report(); dup2(sv, 2); close(sv); close(dn); }
  { int sv = dup(2); int cf0 = (int)hx_memfd(); dup2(cf0, 2); run_prefix(pfx); dup2(sv, 2); close(sv); }
  { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); close(dn); }
  check_pages("prefix"); check_contents("prefix");
  if (hx_eq(mode, "replay")) {
    char *h = rp + hx_len(rp) + 1; int t = 0;
    while (*h) { char w[72]; size_t c = 0; while (*h && *h != ';' && *h != '|' && c < 71) w[c++] = *h++; w[c] = 0; if (c && plen[t] < 8) parse_c(w, &prog[t][plen[t]++]); if (*h == '|') ++t; if (*h) ++h; }
    explore_program(); hx_report(1); return sh->nviol ? 1 : 0;
  }
  for (; i < argc; ++i) { if (nops >= MAXOPS) hx_fatal("too many operations"); parse_c(argv[i], &ops[nops++]); }
  long words = 1; for (int k = 0; k < depth; ++k) words *= nops;
  long tot = 1; for (int t = 0; t < nth; ++t) tot *= words;
  long idx = 0;
  for (long c = 0; c < tot && !sh->nviol; ++c) {
    long w[NT], z = c; int ok = 1;
    for (int t = 0; t < nth; ++t) { w[t] = z % words; z /= words; }
    if (!asym) for (int t = 1; t < nth; ++t) if (w[t] < w[t - 1]) ok = 0;
    if (!ok) continue;
    for (int t = 0; t < nth; ++t) { long y = w[t]; plen[t] = depth; for (int k = 0; k < depth; ++k) { prog[t][k] = ops[y % nops]; y /= nops; } }
    if (!feasible()) continue;
    if (idx++ % nshards != shardi) continue;
    explore_program();
  }
  for (int k = 0; k < nops && k < 4; ++k) hx_cpy(sh->sample[k], ops[(k * 7 + shardi) % nops].text, 200);
  sh->sampled = nops < 4 ? nops : 4;
  hx_report(1);
  (void)statef;
  return sh->nviol ? 1 : 0;
}
