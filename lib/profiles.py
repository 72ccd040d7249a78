"""One function per property: the alphabets, bounds and configurations explored."""
import itertools
from .drv import *

SEQ_LEVEL = "model_checking"
XENV = {"GLIBCXX_TUNABLES": "glibcxx.eh_pool.obj_count=0"}
COMMON = {"crash", "hang", "falsealarm"}


def seqc(w, name="seqc", lib="base", defs=(), **kw):
    return w.exe(name, w.lib(lib, **kw), ["seq.c", "api_c.c", "api_p.c", "api_mem_m.c", "api_mem_p.c"], defs=list(defs))


def seqx(w, name="seqx", lib="base", cxxstd="c++98", defs=(), **kw):
    return w.exe(name, w.lib(lib, cxxstd=cxxstd, **kw), ["seq.c", "api_c.c", "api_p.c", "api_mem_m.c", "api_mem_p.c"], ["api_x.cpp"], defs=["-DWITH_CPP"] + list(defs), cxxstd=cxxstd)


def E(**kw):
    d = dict(QUIET)
    d.update({"DUMA_" + k: str(v) for k, v in kw.items()})
    return d


def X(**kw):
    d = E(**kw)
    d.update(XENV)
    return d


def explore(depth, ops, prefix="", **kw):
    a = ["explore", "depth=%d" % depth]
    a += ["%s=%s" % kv for kv in kw.items()]
    if prefix:
        a.append("prefix=" + prefix)
    return a + ["--"] + list(ops)


def J(exe, label, env, depth, ops, prefix="", shards=8, **kw):
    return Job(exe, explore(depth, ops, prefix, **kw), env, label, shards=shards)


C_ALLOC = ["malloc", "calloc", "calloc1n", "realloc0", "strdup", "p_malloc", "p_calloc", "p_realloc0", "p_strdup"]
C_ALIGN = ["memalign", "posix", "p_memalign", "p_posix", "p_aligned"]
C_VALLOC = ["valloc", "p_valloc"]
X_ALLOC = ["new", "new_nt", "newa", "newa_nt", "fnew", "fnew_nt", "fnewa", "fnewa_nt", "mnew", "mnewa", "macnewa"]
X_FREE = ["del", "del_nt", "dela", "dela_nt", "fdel", "fdel_nt", "fdela", "fdela_nt", "mdel", "mdela", "macdel", "macdela", "sdel", "sdela"]
C_FREE = ["free", "realloc_free", "p_free", "p_realloc_free"]


def aged(exe, label, env, depth, ops, shards=4, **kw):
    """The same exploration late in the life of a program."""
    return [J(exe, "after 70000 allocations " + label, dict(env, DUMA_PROTECT_FREE="0"), depth, ops, "P:70000", shards=shards, **kw),
            J(exe, "after 5000 protected blocks " + label, env, depth, ops, "P:5000", shards=shards, **kw),
            J(exe, "300 live blocks " + label, env, depth, ops, "G:300:24", shards=shards, **kw)]


HUGE = ["A:malloc:5000000000", "A:malloc:4294967296", "A:p_malloc:4294967400", "A:malloc:24"]


def A(ifs, sizes, al=None):
    return ["A:%s:%s%s" % (i, s, "" if al is None else ":%s" % al) for i in ifs for s in sizes]


def sweep(exe, label, env, counts, depth, ops, size=24, **kw):
    """The same exploration from every fill level of the allocation table in a window."""
    return [Job(exe, explore(depth, ops, "P:%d:%s" % (n, size), **kw), env, label, shards=1) for n in counts]


BASE = ["A:malloc:24", "A:malloc:5000", "A:p_calloc:100", "A:memalign:100:64", "A:memalign:60:8192", "F:auto:0", "F:auto:o", "R:m:0:300", "R:p:0:7", "K:all", "L"]
WIDE_SIZES = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 33, 63, 64, 65, 100, 255, 1000, 4094, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 70000, 1044480, 1048575, 1048576, 1048577, 3000001]


def seq_core(c, below=False, deep=5):
    """Histories over the core alphabet from empty, table-full and chunk-full heaps."""
    w, t = c.work, c.thorough
    e, x = seqc(w), seqx(w)
    pb = {"PROTECT_BELOW": 1} if below else {}
    d = deep + (1 if t else 0)
    jobs = [J(e, "history", E(**pb), d, BASE)]
    jobs.append(J(e, "history ALIGNMENT=16", E(ALIGNMENT=16, **pb), d - 1, BASE + ["S:below:%d" % (0 if below else 1)]))
    jobs.append(J(e, "interfaces x sizes", E(**pb), 1, A(C_ALLOC, WIDE_SIZES) + A(C_ALIGN, WIDE_SIZES, 8) + A(C_ALIGN, WIDE_SIZES, 64) + A(C_ALIGN, WIDE_SIZES, 4096) + A(C_ALIGN, WIDE_SIZES, 65536) + A(C_VALLOC, WIDE_SIZES)))
    jobs.append(J(x, "C++ interfaces", X(**pb), 3, A(X_ALLOC, [1, 24, 5000]) + ["A:malloc:33", "F:auto:0", "F:auto:o"]))
    win = range(0, 260) if t else range(0, 150)
    jobs += sweep(e, "table fill sweep", E(**pb), win, 2, ["A:malloc:24", "A:calloc:5000", "A:memalign:10:8192", "F:auto:0", "R:m:0:300", "A:malloc:2000000", "K:all", "L"])
    jobs += sweep(e, "chunk fill sweep", E(**pb), range(0, 24 if t else 12), 3, ["A:malloc:24", "A:malloc:100000", "R:m:0:200000", "F:auto:0", "A:p_malloc:1048576"], size=100000)
    jobs += aged(e, "", E(**pb), d - 2, ["A:malloc:24", "A:calloc:5000", "A:memalign:60:8192", "F:auto:0", "F:auto:o", "R:m:o:300", "K:all", "L"])
    jobs.append(J(e, "blocks of 4 GB", E(FILL=-1, **pb), 3, HUGE + ["A:memalign:4294967300:8192", "F:auto:0", "R:m:0:100", "K:all"], shards=4))
    jobs.append(J(e, "repeated words", E(PROTECT_FREE=0, **pb), 4 if t else 3, BASE, reps=300, timeout=60))
    return jobs


def realloc_jobs(c, **env):
    from .inp import inp, I
    e = inp(c.work)
    t = c.thorough
    return [I(e, "every pair of sizes for realloc", X(PROTECT_FREE=0, **env), "realloc", max=100 if t else 44, arena=24 if t else 9),
            I(e, "every pair of sizes for realloc ALIGNMENT=16", X(PROTECT_FREE=0, ALIGNMENT=16, **env), "realloc", max=60 if t else 40, arena=20 if t else 3)]


def check_C01():
    c = Check("C01", {"over", "inacc"} | COMMON)
    c.run(seq_core(c))
    c.run(realloc_jobs(c))
    return c.finish()


def check_C02():
    c = Check("C02", {"under", "inacc"} | COMMON)
    c.run(seq_core(c, below=True) + realloc_jobs(c, PROTECT_BELOW=1))
    w = c.work
    e = seqc(w)
    c.run([J(e, "mode switches", E(), 5 + c.thorough, ["S:below:1", "S:below:0", "A:malloc:24", "A:malloc:4096", "A:memalign:100:8192", "A:memalign:5000:16384", "F:auto:o", "R:m:o:5000"])])
    return c.finish()


def check_C03():
    c = Check("C03", {"freed", "pages"} | COMMON)
    w, t = c.work, c.thorough
    e = seqc(w)
    al = ["A:malloc:24", "A:malloc:5000", "A:valloc:100", "A:memalign:60:8192", "F:auto:0", "F:auto:o", "R:m:0:300", "R:p:o:9000"]
    jobs = [J(e, "PROTECT_FREE=%s MAX_ALLOC=%s below=%d" % (pf, ma, b), E(PROTECT_FREE=pf, MAX_ALLOC=ma, PROTECT_BELOW=b), 5 + t, al, fdepth=0)
            for pf, ma, b in [(-1, -1, 0), (-1, -1, 1), (0, -1, 0), (16, -1, 0), (40, -1, 1), (-1, 1100, 0), (0, -1, 1)]]
    cyc = ["A:malloc:4096", "A:malloc:8192", "A:valloc:100", "A:malloc:24", "F:auto:0", "F:auto:o", "R:m:0:4096"]
    for env in (dict(PROTECT_FREE=16), dict(PROTECT_FREE=40), dict(PROTECT_FREE=24, PROTECT_BELOW=1), dict(PROTECT_FREE=0), dict(MAX_ALLOC=1100)):
        jobs.append(J(e, "repeated words " + str(env), E(**env), 4, cyc, reps=200 if t else 60, timeout=60))
    for pf in (-1, 16):
        jobs += sweep(e, "table fill sweep PROTECT_FREE=%d" % pf, E(PROTECT_FREE=pf), range(0, 260 if t else 130), 3, ["A:malloc:24", "A:malloc:5000", "F:auto:0", "R:m:0:300"])
    jobs.append(J(seqx(w), "C++", X(), 4, ["A:new:24", "A:newa:5000", "A:fnew:9", "A:malloc:100", "F:auto:0", "F:auto:o"]))
    jobs += aged(e, "", E(), 3 + t, al)
    for pf in (-1, 0, 4200000):
        jobs.append(J(e, "blocks of 4 GB PROTECT_FREE=%d" % pf, E(FILL=-1, PROTECT_FREE=pf), 3 + t, HUGE + ["F:auto:0", "F:auto:o", "R:m:0:100"], shards=4))
    c.run(jobs)
    return c.finish()


def check_C04():
    c = Check("C04", {"data", "fill", "null", "usable"} | COMMON)
    w, t = c.work, c.thorough
    c.run(realloc_jobs(c) + realloc_jobs(c, PROTECT_BELOW=1, FILL=-1))
    e = seqc(w)
    al = ["A:malloc:24", "A:calloc:5000", "A:strdup:13", "A:p_malloc:100", "F:auto:0", "F:auto:o", "R:m:0:300", "R:p:o:7", "R:p:0:9000", "U:m:0", "K:all"]
    jobs = [J(e, "history", E(), 5 + t, al), J(e, "history FILL=-1 below", E(FILL=-1, PROTECT_BELOW=1), 4 + t, al + ["S:fill:7", "S:below:0"]),
            J(e, "history PROTECT_FREE=0", E(PROTECT_FREE=0, FILL=0), 5 + t, al), J(e, "history PROTECT_FREE=24", E(PROTECT_FREE=24), 4 + t, al)]
    jobs += sweep(e, "table fill sweep", E(), range(0, 260 if t else 150), 3, ["A:malloc:24", "A:p_calloc:5000", "F:auto:o", "R:m:o:3000", "A:strdup:40"])
    jobs += sweep(e, "chunk fill sweep", E(), range(0, 12), 3, ["A:malloc:24", "A:malloc:100000", "R:m:0:200000", "F:auto:0", "A:p_malloc:1048576"], size=100000)
    jobs.append(J(seqx(w), "C++", X(), 4, ["A:new:24", "A:newa:5000", "A:fnew:9", "A:malloc:100", "F:auto:0", "F:auto:o", "R:m:o:50"]))
    jobs += aged(e, "", E(), 3 + t, al)
    jobs.append(J(e, "blocks of 4 GB", E(FILL=-1), 3 + t, HUGE + ["F:auto:0", "F:auto:o", "R:m:0:100", "U:m:0", "U:p:0"], shards=4))
    for a in (4096, 8192, 16384, 65536, 1 << 20):
        for b in (0, 1):
            jobs.append(J(e, "blocks of large alignment among small ones", E(PROTECT_BELOW=b), 4 + t, ["A:malloc:24", "A:malloc:5000", "A:memalign:4000:%d" % a, "A:p_posix:9000:%d" % a, "A:malloc:0", "F:auto:o", "R:m:0:300"], shards=2))
    for b in (0, 1):
        jobs.append(J(e, "filling and copying more than 4 GB", E(PROTECT_BELOW=b, PROTECT_FREE=0), 1, ["A:malloc:4294967400", "A:p_memalign:4294967400:64"], shards=1, timeout=200))
    jobs.append(J(e, "realloc from 4 GB to more", E(FILL=-1, PROTECT_FREE=0), 2, ["A:malloc:4294967400", "R:m:0:4294967500"], shards=1, timeout=200))
    jobs.append(J(e, "realloc to 4 GB", E(FILL=-1), 2, ["A:malloc:24", "R:m:0:4294967400"], shards=1, timeout=120))
    jobs.append(J(e, "repeated words", E(PROTECT_FREE=0), 4 if t else 3, al, reps=300, timeout=60))
    c.run(jobs)
    return c.finish()


def pad_writes(bs, xors=("1", "255"), who=("0",)):
    return ["W:%s:%s%d:%s" % (w, cl, o, x) for w in who for cl in "bBaA" for o in bs for x in xors]


def check_C06():
    c = Check("C06", {"detect", "diag", "slack"} | COMMON)
    w, t = c.work, c.thorough
    from .inp import inp, I
    i = inp(w)
    c.run([I(i, "every padding byte ALIGNMENT=%d" % a, X(PROTECT_FREE=0, ALIGNMENT=a), "slack", al="8,64,4096,8192,16384" + (",65536" if t else ""), max=8192, arena=64 if t else 4) for a in (1, 16)])
    e, x = seqc(w), seqx(w)
    det = ["F:auto:0", "F:auto:o", "R:m:0:300", "R:p:o:7", "R:p:0:0", "K:0", "K:o", "K:all"]
    jobs = []
    for env, lab in [(dict(), "default"), (dict(PROTECT_BELOW=1), "below"), (dict(ALIGNMENT=16), "align16"), (dict(SLACKFILL=0), "slackfill0"), (dict(PROTECT_FREE=0), "pfree0"), (dict(ALIGNMENT=8, PROTECT_BELOW=1, SLACKFILL=255), "align8 below")]:
        jobs.append(J(e, "write anywhere, then check: " + lab, E(**env), 3, ["A:malloc:24", "A:memalign:100:64", "A:calloc:4097", "A:memalign:50:8192"] + pad_writes([0, 1, 7, 100, 3000], ["1", "128"]) + det))
        jobs.append(J(e, "history: " + lab, E(**env), 5, ["A:malloc:24", "A:p_malloc:5001", "W:0:b0:255", "W:o:B0:1", "W:0:A0:1", "S:below:%d" % (not env.get("PROTECT_BELOW", 0))] + det))
    for f in (1, 2, 3, 5):
        jobs.append(J(e, "CHECK_FREQ=%d" % f, E(CHECK_FREQ=f), 5, ["A:malloc:24", "A:calloc:3", "A:p_memalign:3:4096", "F:auto:0", "F:auto:o", "R:m:o:9", "W:o:b0:2", "W:0:A0:2"]))
    jobs.append(J(x, "C++", X(), 4, A(["new", "newa", "fnew", "mnewa"], [24]) + ["W:0:b0:1", "W:o:B0:1", "F:auto:0", "F:auto:o", "K:all", "K:0"]))
    jobs += sweep(e, "table fill sweep", E(), range(0, 260 if t else 130), 3, ["A:malloc:24", "W:0:b0:1", "F:auto:0", "K:all", "R:m:0:30"])
    jobs += aged(e, "", E(), 3, ["A:malloc:24", "A:memalign:100:64", "W:0:b0:1", "W:o:A0:128", "F:auto:0", "F:auto:o", "K:0", "K:all", "R:m:o:30"])
    for b in (0, 1):
        jobs.append(J(e, "blocks of 4 GB", E(FILL=-1, PROTECT_BELOW=b), 3, ["A:malloc:5000000000", "A:memalign:4294967300:8192", "A:malloc:24", "W:0:b0:1", "W:0:B0:128", "W:0:A0:1", "K:0", "K:all", "F:auto:0", "F:auto:o", "R:m:0:100"], shards=4))
    for f in (127, 128, 255, 256, 257, 300, 1000, 40000):
        jobs.append(J(e, "CHECK_FREQ=%d" % f, E(CHECK_FREQ=f, PROTECT_FREE=0), 3 if f > 1000 and not t else 4, ["A:malloc:24", "F:auto:o", "W:0:b0:1", "P:%d" % ((f + 1) // 2), "P:%d" % (f // 2 - 1)], "A:malloc:30", shards=4 if f > 1000 else 1))
    c.run(jobs)
    return c.finish()


BAD = ["freed", "freedint", "stack", "static", "foreign", "one", "top", "int1", "mid", "last", "end", "m1", "m8", "page", "page2", "guard", "next", "b32", "b40", "b63", "low", "int8", "int16", "intpg"]


def check_C07():
    c = Check("C07", {"bad", "diag", "data", "pages", "book", "freed"} | COMMON)
    w, t = c.work, c.thorough
    e, x = seqc(w), seqx(w)
    act = ["free", "realloc_free", "p_free", "m_realloc", "p_realloc", "m_usable", "p_usable", "check"]
    hist = ["A:malloc:24", "A:memalign:100:8192", "A:calloc:5000", "F:auto:0", "F:auto:o", "R:m:0:30"]
    jobs = []
    for env in (dict(), dict(PROTECT_BELOW=1), dict(PROTECT_FREE=0), dict(PROTECT_FREE=16), dict(ALIGNMENT=16)):
        lab = " ".join("%s=%s" % k for k in env.items()) or "default"
        jobs.append(J(e, "every bad address: " + lab, E(**env), 3 + t, hist + ["E:%s:%s" % (a, b) for a in act for b in BAD]))
        jobs.append(J(e, "after longer histories: " + lab, E(**env), 4 + t, hist + ["E:%s:%s" % (a, b) for a in ("free", "m_realloc", "p_usable", "check") for b in ("freed", "int1", "end", "guard")] + ["E:free:freed:1", "E:p_realloc:freed:1"]))
    jobs += sweep(e, "double release across table growth", E(), range(0, 260 if t else 130), 3, ["A:malloc:24", "F:auto:0", "E:free:freed", "E:m_realloc:freed", "E:p_usable:freed", "E:check:freed"])
    jobs.append(J(x, "C++", X(), 3, ["A:new:24", "A:newa:100", "A:mnew:9", "F:auto:0"] + ["E:%s:%s" % (a, b) for a in X_FREE for b in ("freed", "stack", "int1", "end", "guard", "m1", "b32", "b63")]))
    for pf in (-1, 0, 12, 16, 20, 24, 28, 32, 40):
        jobs.append(J(e, "zero-size blocks PROTECT_FREE=%d" % pf, E(PROTECT_FREE=pf), 5 + t, ["A:malloc:0", "A:malloc:5000", "A:p_calloc:1", "F:auto:0", "F:auto:o"] + ["E:%s:freed" % a for a in ("free", "m_realloc", "p_usable", "check")] + ["E:free:freed:1", "E:p_free:freed:2", "E:free:int1", "E:check:page"], fdepth=0, shards=4))
    for env in (dict(), dict(PROTECT_BELOW=1), dict(ALIGNMENT=4096), dict(PROTECT_FREE=0)):
        jobs.append(J(e, "every page around: " + str(env), E(MALLOC_0_STRATEGY=2, **env), 3 if t else 2, ["A:malloc:24", "A:calloc:5000"] + (["F:auto:0"] if t else []) + ["E:%s:pg%s%d" % (a, s, n) for a in ("free", "m_realloc", "p_usable", "check") for s in "+-" for n in range(0, 300)], prefix="A:malloc:0"))
    for b in (0, 1):
        jobs.append(J(e, "beside the fixed address below=%d" % b, E(MALLOC_0_STRATEGY=2, PROTECT_BELOW=b), 3, ["A:malloc:0", "A:malloc:24", "F:auto:0"] + ["E:%s:fix%s" % (a, k) for a in act for k in ("+1", "-1", "+pg", "-pg", "32")]))
    jobs.append(J(e, "null release", E(), 3, ["A:malloc:24", "F:auto:0", "A:malloc:0"]))
    jobs += aged(e, "", E(), 3, hist[:1] + hist[3:5] + ["E:%s:%s" % (a, b) for a in ("free", "m_realloc", "p_usable", "check") for b in ("freed", "int1", "end", "guard", "page")])
    jobs.append(J(e, "blocks of 4 GB", E(FILL=-1), 3, HUGE[:2] + ["A:malloc:24", "F:auto:0"] + ["E:%s:%s" % (a, b) for a in ("free", "m_realloc", "p_usable", "check") for b in ("freed", "int1", "mid", "last", "end", "guard", "page2")], shards=4))
    c.run(jobs)
    return c.finish()


def check_C08():
    c = Check("C08", {"mismatch", "diag", "bad"} | COMMON)
    w, t = c.work, c.thorough
    x = seqx(w)
    al = A(C_ALLOC + X_ALLOC + C_VALLOC, [24]) + A(C_ALIGN, [24], 64) + ["A:macnew16:16"]
    fr = ["F:%s:0" % f for f in C_FREE + X_FREE]
    jobs = []
    for env in (dict(), dict(PROTECT_BELOW=1), dict(PROTECT_FREE=0), dict(CHECK_FREQ=1)):
        jobs.append(J(x, "matrix " + str(env), X(**env), 2, al + fr + ["R:m:0:40", "R:p:0:40", "R:p:0:0"]))
    jobs.append(J(x, "histories", X(), 4, ["A:malloc:24", "A:new:24", "A:newa:24", "A:mnew:24", "A:mnewa:24", "F:free:o", "F:del:o", "F:dela:o", "F:mdel:o", "F:mdela:o", "R:m:o:10"]))
    jobs.append(J(x, "zero sizes", X(), 2, A(C_ALLOC + X_ALLOC, [0]) + fr))
    if True:
        x11 = seqx(w, "seqx17", "cxx17", "c++17")
        jobs.append(J(x11, "matrix c++17", X(), 2, al + fr))
    jobs += [Job(x, explore(2, ["A:malloc:24", "A:new:24", "A:newa:24", "A:mnew:24", "A:mnewa:24"] + ["F:%s:0" % f for f in ("free", "del", "dela", "mdel", "mdela", "fdel", "fdela")], "P:%d" % n), X(), "matrix at every table fill", shards=1) for n in range(0, 60)]
    jobs += aged(x, "", X(), 2, ["A:malloc:24", "A:new:24", "A:newa:24", "A:mnew:24", "A:mnewa:24"] + ["F:%s:0" % f for f in ("free", "del", "dela", "mdel", "mdela", "fdel", "fdela")], shards=1)
    jobs.append(J(x, "blocks of 4 GB", X(FILL=-1), 2, ["A:malloc:5000000000", "A:new:5000000000", "A:newa:4294967296"] + ["F:%s:0" % f for f in ("free", "del", "dela", "mdel", "mdela")], shards=1))
    c.run(jobs)
    return c.finish()


def check_C09():
    c = Check("C09", {"leak"} | COMMON)
    w, t = c.work, c.thorough
    e, x = seqc(w), seqx(w)
    al = ["A:malloc:24", "A:calloc:5000", "A:strdup:9", "A:p_malloc:100", "A:memalign:10:64", "A:malloc:0", "F:auto:0", "F:auto:o", "R:m:0:300", "R:p:0:30", "L", "Z"]
    jobs = []
    for env in (dict(SHOW_ALLOC=1), dict(REPORT_ALL_LEAKS=1), dict(), dict(PROTECT_FREE=0, REPORT_ALL_LEAKS=1), dict(PROTECT_FREE=16, PROTECT_BELOW=1)):
        lab = " ".join("%s=%s" % k for k in env.items()) or "default"
        jobs.append(J(e, "history " + lab, E(**env), 4 + t, al, always="L"))
    jobs.append(J(e, "unusual source positions", E(SHOW_ALLOC=1), 3, A(["l_malloc70k", "l_malloc32k", "l_calloc64k", "l_strdup2m", "l_malloc1", "l_malloc256"], [24]) + ["A:l_memalign16m:24:64", "F:auto:0", "F:auto:o", "R:m:0:9", "L"], always="L"))
    jobs.append(J(x, "C++", X(REPORT_ALL_LEAKS=1), 3, A(X_ALLOC, [24]) + ["A:macnew16:16", "A:malloc:10", "A:new:0", "F:auto:0", "F:auto:o", "L"], always="L"))
    jobs.append(J(x, "C++ default", X(SHOW_ALLOC=1), 3, A(X_ALLOC, [24]) + ["A:malloc:10", "F:auto:0", "F:auto:o", "L"], always="L"))
    jobs += sweep(e, "table fill sweep", E(SHOW_ALLOC=1), range(0, 260 if t else 120), 2, ["A:malloc:24", "A:p_malloc:5000", "F:auto:0", "R:m:0:300", "L"], always="L")
    jobs += aged(e, "", E(REPORT_ALL_LEAKS=1), 2, ["A:malloc:24", "A:p_malloc:5000", "F:auto:0", "F:auto:o", "R:m:0:300", "L"], always="L")
    for lab, ee in (("", E(FILL=-1)), (" REPORT_ALL_LEAKS", E(FILL=-1, REPORT_ALL_LEAKS=1))):
        jobs.append(J(e, "blocks of 4 GB" + lab, ee, 3, HUGE + ["F:auto:0", "R:m:0:100", "L"], always="L", shards=4))
    c.run(jobs)
    return c.finish()


def check_C11():
    c = Check("C11", {"zero", "pages", "usable", "bad", "detect", "data", "leak", "freed"} | COMMON)
    w, t = c.work, c.thorough
    e, x = seqc(w), seqx(w)
    cz = A(C_ALLOC[:4] + C_ALLOC[5:8], [0]) + A(C_ALIGN, [0], 64) + A(C_VALLOC, [0]) + A(["memalign"], [0], 0) + A(["memalign", "p_memalign"], [0], 24)
    xz = A(X_ALLOC, [0])
    follow = ["A:malloc:24", "F:auto:0", "F:auto:o", "F:p_free:0", "R:m:0:30", "R:p:0:0", "U:m:0", "U:p:0", "K:0", "K:all", "L", "Q:free:0", "Q:pfree:0", "Q:usable:0", "Q:check:0", "Q:realloc:30", "Q:realloc:0", "Q:null:0"]
    jobs = []
    for st in (0, 1, 2, 3):
        for b in (0, 1):
            jobs.append(J(e, "C strategy %d below=%d" % (st, b), E(MALLOC_0_STRATEGY=st, PROTECT_BELOW=b), 3, cz + follow))
        jobs.append(J(e, "histories strategy %d" % st, E(MALLOC_0_STRATEGY=st, SHOW_ALLOC=1), 4 + t, ["A:malloc:0", "A:p_calloc:0", "A:memalign:0:64"] + follow))
    for st in (2, 3):
        jobs.append(J(x, "C++ strategy %d" % st, X(NEW_0_STRATEGY=st), 3, xz + ["A:malloc:0", "A:new:24", "F:auto:0", "F:auto:o", "Q:del:0", "Q:dela:0", "K:all", "L", "Q:null:0"]))
    jobs.append(J(x, "C++ strategy independent of C strategy", X(NEW_0_STRATEGY=3, MALLOC_0_STRATEGY=1), 2, xz + ["A:malloc:0", "F:auto:0"]))
    jobs.append(J(x, "C++ strategy 2, C strategy 0", X(NEW_0_STRATEGY=2, MALLOC_0_STRATEGY=0), 2, xz + ["A:malloc:0", "F:auto:0", "Q:del:0"]))
    jobs += [Job(e, explore(2, ["A:malloc:0", "A:malloc:24", "F:auto:0", "R:m:0:30", "U:p:0", "K:all"], "P:%d:0" % n), E(), "table fill sweep", shards=1) for n in range(0, 200 if t else 80)]
    for st in (2, 3):
        jobs += aged(e, "strategy %d" % st, E(MALLOC_0_STRATEGY=st), 3, ["A:malloc:0", "A:p_calloc:0", "A:malloc:24", "F:auto:0", "R:m:0:30", "U:p:0", "K:all", "Q:free:0"])
    c.run(jobs)
    return c.finish()


def check_C12():
    c = Check("C12", {"null", "failexit", "over", "under", "inacc", "data", "pages", "book", "freed", "leak", "align"} | COMMON)
    w, t = c.work, c.thorough
    e, x = seqc(w), seqx(w)
    al = ["A:malloc:24", "A:malloc:3000000", "A:calloc:5000", "A:p_posix:1200000:4096", "A:strdup:9", "F:auto:0", "R:m:0:2000000", "R:p:0:40", "L"]
    jobs = []
    for env in (dict(MALLOC_FAILEXIT=0), dict(), dict(MALLOC_FAILEXIT=0, PROTECT_FREE=0), dict(PROTECT_FREE=0), dict(MALLOC_FAILEXIT=0, PROTECT_FREE=64), dict(MALLOC_FAILEXIT=0, PROTECT_BELOW=1, MAX_ALLOC=3000)):
        lab = " ".join("%s=%s" % k for k in env.items()) or "default"
        jobs.append(J(e, "refused mmap: " + lab, E(**env), 3, al, faults="m", fdepth=2 if t or len(env) < 2 else 1))
        jobs += sweep(e, "refused mmap at every table fill: " + lab, E(**env), range(0, 240 if t else 130, 1), 1, ["A:malloc:24", "A:malloc:2000000", "R:m:0:30"], faults="m", fdepth=1)
    for env in (dict(), dict(PROTECT_BELOW=1, PROTECT_FREE=0)):
        jobs += [Job(e, explore(2, ["O:%d:%d" % (n, sz) for n in (3, 40, 300) for sz in (24, 9000)] + ["F:auto:0", "F:auto:o", "A:malloc:24", "A:calloc:5000", "K:all", "L"], prefix="G:%d" % n), E(MALLOC_FAILEXIT=0, **env), "memory runs out for good", shards=1)
                 for n in list(range(0, 150, 13 if not t else 1)) + [600, 1000, 2000] + list(range(2001, 2700, 137 if not t else 7))]
    jobs.append(J(x, "C++ refused mmap", X(MALLOC_FAILEXIT=0), 2, A(X_ALLOC, [24, 2000000]) + ["F:auto:0"], faults="m", fdepth=1))
    for h in (1, 2, 3, 5, -1, -2, -3, -101, -103):
        jobs.append(J(x, "new-handler %d" % h, X(MALLOC_FAILEXIT=0 if h % 2 else 1), 1, A([a for a in X_ALLOC if a[0] != "m" or a == "macnewa"], [24, 2000000]), faults="m", fdepth=0, handler=h, shards=2))
        jobs += sweep(x, "new-handler %d at table growth" % h, X(), range(0, 130, 1 if t else 9), 1, ["A:new:24", "A:newa_nt:5000"], faults="m", fdepth=0, handler=h) if h in (2, -2) else []
    for j in aged(e, "", E(MALLOC_FAILEXIT=0), 1, ["A:malloc:24", "A:malloc:3000000", "R:m:0:2000000", "F:auto:0"], faults="m", fdepth=1, shards=1):
        jobs.append(j)
    jobs.append(J(x, "C++ refused mmap, failexit", X(), 2, A(X_ALLOC, [2000000]) + ["A:malloc:24", "F:auto:0"], faults="m", fdepth=1))
    c.run(jobs)
    return c.finish()


def check_C17():
    c = Check("C17", {"budget", "bounded"} | COMMON)
    w, t = c.work, c.thorough
    e = seqc(w)
    al = ["A:malloc:24", "A:malloc:5000", "A:malloc:9000", "A:malloc:20000", "F:auto:0", "F:auto:o", "R:m:0:300"]
    jobs = []
    for n in (4, 8, 12, 16, 20, 24, 32, 40, 48, 64):
        jobs.append(J(e, "PROTECT_FREE=%d" % n, E(PROTECT_FREE=n), 6 if t else 5, al, shards=4))
    for n in (16, 24, 40):
        jobs.append(J(e, "below PROTECT_FREE=%d" % n, E(PROTECT_FREE=n, PROTECT_BELOW=1), 5, al, shards=4))
    for n in (1000, 3000000, 4194303, 4194304, 4194310, 5000000, 9000000, 12000000):
        jobs.append(J(e, "blocks of 4 GB PROTECT_FREE=%d" % n, E(FILL=-1, PROTECT_FREE=n), 5 if t else 4, HUGE[:3] + ["A:malloc:24", "F:auto:0", "F:auto:o"], shards=2))
    cyc = ["A:malloc:24", "A:malloc:9000", "A:memalign:100:8192", "F:auto:0", "F:auto:o", "R:m:0:5000"]
    for env in (dict(PROTECT_FREE=0), dict(PROTECT_FREE=16), dict(PROTECT_FREE=64), dict(PROTECT_FREE=40, PROTECT_BELOW=1), dict(MAX_ALLOC=1100), dict(MAX_ALLOC=1500, PROTECT_FREE=200)):
        jobs.append(J(e, "cycles " + str(env), E(**env), 4, cyc, reps=(1600 if t else 800), timeout=60))
    big = ["A:malloc:300000", "A:malloc:700000", "A:malloc:1044480", "A:malloc:24", "F:auto:0", "F:auto:o"]
    for env in (dict(PROTECT_FREE=0), dict(PROTECT_FREE=800), dict(MAX_ALLOC=2500), dict(PROTECT_FREE=0, PROTECT_BELOW=1)):
        lim = any(v > 0 for k, v in env.items() if k != "PROTECT_BELOW")
        jobs.append(J(e, "big cycles " + str(env), E(**env) if lim else E(FILL=-1, **env), 4 if t or not lim else 3, big, reps=(3000 if t else 1600) if lim else 1600, timeout=200))
    c.run(jobs)
    return c.finish()


def check_C18():
    c = Check("C18", {"book", "pages", "freed", "over", "under"} | COMMON)
    w, t = c.work, c.thorough
    e, x = seqc(w), seqx(w)
    al = ["A:malloc:24", "A:malloc:5000", "A:memalign:60:16384", "A:p_posix:40:24", "A:strdup:3", "A:malloc:0", "F:auto:0", "F:auto:o", "R:m:0:300", "R:p:o:0", "K:0", "K:all", "U:p:0", "U:m:o", "L", "Z", "S:below:1"]
    jobs = [J(e, "history " + str(env), E(**env), 4 + t, al) for env in (dict(), dict(PROTECT_FREE=0), dict(PROTECT_FREE=16, CHECK_FREQ=2), dict(PROTECT_BELOW=1, ALIGNMENT=16), dict(MALLOC_0_STRATEGY=1, SHOW_ALLOC=1))]
    jobs += sweep(e, "table fill sweep", E(), range(0, 260 if t else 150), 2, al)
    jobs += aged(e, "", E(), 2 + t, al)
    jobs.append(J(e, "after refused requests", E(MALLOC_FAILEXIT=0), 2, al + ["A:malloc:3000000", "R:m:0:3000000", "R:p:o:2000000", "A:calloc:2000000"], faults="m", fdepth=2))
    jobs += sweep(e, "after refused requests at every table fill", E(MALLOC_FAILEXIT=0), range(0, 240 if t else 130), 2, ["A:malloc:24", "R:m:0:3000000", "R:p:0:30", "A:malloc:2000000", "F:auto:0"], faults="m", fdepth=1)
    jobs.append(J(e, "after refused unmapping", E(PROTECT_FREE=0), 3, al, faults="u", fdepth=1))
    jobs.append(J(x, "C++", X(), 3, A(X_ALLOC, [24, 0]) + ["F:auto:0", "K:all", "L", "A:malloc:5000", "F:auto:o"]))
    c.run(jobs)
    return c.finish()


def check_C25():
    c = Check("C25", {"mprotect", "book", "pages", "freed", "over", "under", "inacc", "data"} | COMMON)
    w, t = c.work, c.thorough
    e, x = seqc(w), seqx(w)
    al = ["A:malloc:24", "A:calloc:5000", "A:memalign:60:16384", "A:malloc:0", "A:malloc:2000000", "F:auto:0", "R:m:0:300", "R:p:0:0", "K:0", "K:all", "U:p:0", "L"]
    jobs = []
    for env in (dict(), dict(PROTECT_FREE=0), dict(PROTECT_FREE=16), dict(PROTECT_BELOW=1)):
        lab = " ".join("%s=%s" % k for k in env.items()) or "default"
        jobs.append(J(e, "refused mprotect/munmap: " + lab, E(**env), 3, al, faults="pu", fdepth=1))
    jobs += sweep(e, "at every table fill", E(), range(0, 240 if t else 120), 1, ["A:malloc:24", "F:auto:0", "R:m:0:300"], faults="pu", fdepth=1)
    jobs += sweep(e, "at every table fill PROTECT_FREE=32", E(PROTECT_FREE=32), range(0, 240 if t else 60), 1, ["A:malloc:24", "F:auto:0", "R:m:0:300"], faults="pu", fdepth=1)
    jobs += aged(e, "", E(), 1, ["A:malloc:24", "A:malloc:3000000", "R:m:0:300", "F:auto:0", "K:all", "L"], faults="pu", fdepth=1, shards=1)
    jobs.append(J(x, "C++", X(), 2, A(["new", "newa", "fnew"], [24]) + ["F:auto:0"], faults="pu", fdepth=1))
    c.run(jobs)
    return c.finish()
