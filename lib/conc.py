"""C10 on the conc engine: all interleavings of small thread programs."""
from .profiles import *

CWRAPS = ["mmap", "mmap64", "munmap", "mprotect", "write", "memset", "pthread_self", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_timedlock", "pthread_mutex_unlock",
          "pthread_spin_init", "pthread_spin_lock", "pthread_spin_trylock", "pthread_spin_unlock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "sem_init", "sem_wait", "sem_trywait", "sem_post", "pthread_once",
          "sched_yield", "usleep", "nanosleep", "_ZSt15set_new_handlerPFvvE", "_ZSt15get_new_handlerv"]
TS = ["-fsanitize=thread"]


def concx(w, name="conc", lib="tsan", cxxstd="c++98", **kw):
    return w.exe(name, w.lib(lib, cflags=TS, cxxstd=cxxstd, **kw), ["conc.c", "api_c.c", "api_p.c", "api_mem_m.c", "api_mem_p.c"], ["api_x.cpp"], defs=["-DWITH_CPP"], wraps=CWRAPS, cxxstd=cxxstd, perfile={"api_x.cpp": TS, "api_c.c": TS})


PF = "A:malloc:40;A:malloc:24;A:malloc:24;A:p_malloc:100;A:p_malloc:100"
CTAGS = {"over", "under", "inacc", "data", "freed", "book", "leak", "bad", "deadlock", "lock", "usable", "null", "detect", "fill", "slack", "align", "pages", "failexit", "site", "budget", "zero"} | COMMON


def CJ(exe, label, env, ops, prefix=PF, shards=8, **kw):
    kw.setdefault("depth", 1); kw.setdefault("bound", 2); kw.setdefault("threads", 2)
    j = Job(exe, explore(kw.pop("depth"), ops, prefix, **kw), env, label, shards=shards, timeout=860)
    j.ownstates = True  # the engine counts its happens-before states itself
    return j


def check_C10():
    c = Check("C10", CTAGS)
    w, t = c.work, c.thorough
    e = concx(w)
    b = 3 if t else 2
    core = ["A:malloc:24", "F:auto:0", "R:m:0:300", "U:m:0", "K:0", "K:all", "L"]
    ifs = ["A:%s:24" % i for i in C_ALLOC + X_ALLOC] + ["A:memalign:24:64", "A:posix:24:8192", "A:valloc:24", "A:p_memalign:5000:64", "A:p_posix:24:32", "A:p_valloc:5000", "A:malloc:0", "A:new:0"]
    jobs = [
        CJ(e, "pairs of calls", X(), core + ["A:p_calloc:5000", "A:memalign:60:8192", "R:p:0:7", "R:m:0:0", "F:p_free:0", "U:p:0", "D:free", "D:p_free", "D:realloc", "D:usable", "D:check"], bound=b),
        CJ(e, "every interface", X(), ifs + ["F:auto:0", "L"], bound=b - 1),
        CJ(e, "two calls each", X(), core, depth=2, bound=b - 1),
        CJ(e, "three threads", X(), core, threads=3, bound=b - 1),
        CJ(e, "counts", X(SHOW_ALLOC=1, REPORT_ALL_LEAKS=1), ["A:malloc:24", "F:auto:0", "R:p:0:9", "L", "A:p_calloc:7"], depth=2 if t else 1, bound=b),
        CJ(e, "periodic checks", X(CHECK_FREQ=2), core + ["W:0:a0"], bound=b),
        CJ(e, "freed memory returned", X(PROTECT_FREE=0), core + ["D:free"], depth=1, bound=b),
        CJ(e, "budget", X(PROTECT_FREE=24), core + ["A:malloc:9000"], depth=1, bound=b),
        CJ(e, "protect below", X(PROTECT_BELOW=1), core, bound=b - 1),
        CJ(e, "padding damage", X(), ["W:0:a0", "F:auto:0", "K:0", "K:all", "A:malloc:24"], depth=2, bound=b - 1),
        CJ(e, "out of memory", X(MALLOC_FAILEXIT=0), ["A:malloc:24", "A:calloc:2000000", "R:m:0:3000000", "A:new:3000000", "A:new_nt:2500000", "F:auto:0", "L"], mfail=1, bound=b),
        CJ(e, "nested locking", X(), ["Q", "A:malloc:24", "F:auto:0", "L"], prefix="A:malloc:40;A:macnewa:8;A:macnewa:8;A:new:8;A:new:8", bound=b, dsite=1),
        CJ(e, "nested locking, three threads", X(), ["Q", "A:malloc:24", "F:auto:0"], prefix="A:malloc:40;A:new:8;A:macnewa:8;A:newa:8", bound=b - 1, threads=3),
        CJ(e, "C++ release", X(), ["N", "A:macnewa:8", "F:auto:0"], prefix="A:malloc:40;A:macnewa:8;A:macnewa:8;A:new:8;A:new:8", bound=1, dsite=1),
    ]
    # the table of blocks grows while threads work
    for n in range(52, 60):
        jobs.append(CJ(e, "table growth", X(), ["A:malloc:24", "F:auto:0", "R:m:0:300", "L"], prefix="G:%d;A:malloc:40;A:malloc:24;A:malloc:24" % n, depth=1, bound=b, shards=1))
    c.run(jobs)
    return c.finish()
