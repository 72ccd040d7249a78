"""Checks on the inp engine: exhaustive enumeration of inputs."""
from .profiles import *


def inp(w, name="inp", lib="base", **kw):
    return w.exe(name, w.lib(lib, **kw), ["inp.c", "api_c.c", "api_p.c", "api_mem_m.c", "api_mem_p.c"], ["api_x.cpp"], defs=["-DWITH_CPP"], wraps=["mmap", "mmap64"])


def I(exe, label, env, mode, shards=8, **kw):
    return Job(exe, [mode] + ["%s=%s" % k for k in kw.items()], env, label, shards=shards)


def size_jobs(c, e, env, lab, hi, al="8,16,64,256,4096,8192,65536"):
    return [I(e, "every size 1..%d %s" % (hi, lab), X(PROTECT_FREE=0, **env), "sizes", lo=1, hi=hi, al=al)]


def check_C05():
    c = Check("C05", {"align", "diag", "over", "under"} | COMMON)
    w, t = c.work, c.thorough
    e = inp(w)
    jobs = []
    for b in (0, 1):
        jobs.append(I(e, "every alignment below=%d" % b, X(PROTECT_FREE=0, PROTECT_BELOW=b), "align"))
        for a in (1, 2, 4, 8, 16, 32, 64, 4096):
            jobs += size_jobs(c, e, dict(ALIGNMENT=a, PROTECT_BELOW=b), "ALIGNMENT=%d below=%d" % (a, b), 9000 if t else 600, "8,32,1024,4096,16384")
    s = seqx(w)
    ops = ["A:malloc:24", "A:malloc:7", "A:memalign:24:64", "A:memalign:5:48", "A:posix:24:48", "A:posix:24:4", "A:posix:24:0", "A:p_posix:100:8192", "A:p_memalign:9:12", "A:valloc:10", "A:new:100", "F:auto:0", "R:m:0:50", "S:align:1", "S:align:16", "S:align:4096", "S:below:1"]
    jobs.append(J(s, "alignment histories", X(), 4 if t else 3, ops))
    c.run(jobs)
    return c.finish()


def check_C13():
    c = Check("C13", {"undersized", "over", "under", "inacc", "data", "null", "usable", "align", "freed", "failexit", "pages", "book"} | COMMON)
    w, t = c.work, c.thorough
    e = inp(w)
    jobs = []
    for b in (0, 1):
        for a in (1, 16) if t or not b else (1,):
            env = X(FILL=-1, MALLOC_FAILEXIT=0, PROTECT_FREE=0, PROTECT_BELOW=b, ALIGNMENT=a)
            jobs.append(I(e, "huge sizes below=%d ALIGNMENT=%d" % (b, a), env, "huge"))
            if t or a == 1:
                jobs.append(I(e, "huge calloc below=%d ALIGNMENT=%d" % (b, a), env, "calloc"))
    jobs.append(I(e, "huge sizes PROTECT_FREE=64", X(FILL=-1, MALLOC_FAILEXIT=0, PROTECT_FREE=64), "huge"))
    jobs.append(I(e, "huge sizes MAX_ALLOC", X(FILL=-1, MALLOC_FAILEXIT=0, PROTECT_FREE=0, MAX_ALLOC=100000), "huge"))
    if t:
        jobs.append(I(e, "huge calloc PROTECT_FREE=64", X(FILL=-1, MALLOC_FAILEXIT=0, PROTECT_FREE=64), "calloc"))
    c.run(jobs)
    return c.finish()


def check_C14():
    c = Check("C14", {"memres", "memfault"} | COMMON)
    w, t = c.work, c.thorough
    e = inp(w)
    jobs = [I(e, "separate regions at page edges", X(PROTECT_FREE=0), "mem", max=60 if t else 24),
            I(e, "large counts", X(PROTECT_FREE=0), "edge", max=300000 if t else 70000)]
    for ov in (0, 1):
        jobs.append(I(e, "one arena MEMCPY_OVERLAP=%d" % ov, X(MEMCPY_OVERLAP=ov), "overlap", arena=14 if t else 11, max=7 if t else 5))
        jobs.append(I(e, "long regions MEMCPY_OVERLAP=%d" % ov, X(MEMCPY_OVERLAP=ov), "shift", max=200 if t else 72))
        jobs.append(I(e, "one arena, longer MEMCPY_OVERLAP=%d" % ov, X(MEMCPY_OVERLAP=ov), "overlap", arena=18 if t else 15, max=5 if t else 3))
    for f in ((0, 1, 2, 3, 4, 5) if t else (0, 4, 5)):
        jobs.append(I(e, "more than 4 GB", X(), "big", shards=1, fn=f, api=f % 2, tmo=700))
    c.run(jobs)
    return c.finish()


def check_C15():
    c = Check("C15", {"overlap"} | COMMON)
    w, t = c.work, c.thorough
    e = inp(w)
    jobs = []
    for ov in (0, 1):
        jobs.append(I(e, "one arena MEMCPY_OVERLAP=%d" % ov, X(MEMCPY_OVERLAP=ov), "overlap", arena=14 if t else 11, max=7 if t else 5))
        jobs.append(I(e, "long regions MEMCPY_OVERLAP=%d" % ov, X(MEMCPY_OVERLAP=ov), "shift", max=200 if t else 72))
        jobs.append(I(e, "one arena, longer MEMCPY_OVERLAP=%d" % ov, X(MEMCPY_OVERLAP=ov), "overlap", arena=18 if t else 15, max=5 if t else 3))
    jobs.append(I(e, "separate regions at page edges", X(PROTECT_FREE=0), "mem", max=60 if t else 24))
    c.run(jobs)
    return c.finish()
