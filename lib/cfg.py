"""C16, C23: settings and first calls, on the histories explorer."""
from .profiles import *

ALLTAGS = {"over", "under", "inacc", "data", "freed", "book", "leak", "bad", "lock", "usable", "null", "detect", "fill", "slack", "align", "pages", "failexit", "zero", "budget", "mem", "diag", "mismatch", "mprotect"} | COMMON

FIRST_ALLOC = ["A:%s:24" % i for i in C_ALLOC] + ["A:malloc:0", "A:p_malloc:0", "A:p_calloc:0", "A:memalign:24:64", "A:p_memalign:24:8192", "A:posix:24:32", "A:p_posix:100:8", "A:posix:24:12", "A:valloc:24", "A:p_valloc:24", "A:p_malloc:5000"]
FIRST_CPP = ["A:%s:24" % i for i in X_ALLOC if i not in ("mnew", "mnewa")] + ["A:new:0", "A:newa:0"]
FIRST_OTHER = ["Q:nullm:0", "Q:nullp:0", "Q:nullu:0", "Q:nullk:0", "K:all", "L", "Z"] + ["M:%s:%s:16" % (m, f) for m in "mp" for f in ("memcpy", "memmove", "strcpy", "strncpy", "strcat", "strncat")] + ["M:m:memcpy:4", "M:p:memcpy:-4"]
FIRST_XOTHER = ["Q:null%s:0" % f for f in ("del", "del_nt", "dela", "dela_nt", "fdel", "fdel_nt", "fdela", "fdela_nt", "mdel", "mdela", "sdel", "sdela")]
FIRST_BAD = ["E:%s:%s" % (f, a) for f in ("free", "p_free", "m_realloc", "p_realloc", "m_usable", "p_usable", "check") for a in ("static", "foreign", "one")]
FIRST_XBAD = ["E:%s:%s" % (f, a) for f in ("del", "dela") for a in ("static", "foreign")]
FIRST_SET = ["S:below:1", "S:align:8", "S:fill:7"]


def check_C23():
    c = Check("C23", ALLTAGS)
    w, t = c.work, c.thorough
    e, x = seqc(w), seqx(w)
    good = FIRST_ALLOC + FIRST_CPP + FIRST_OTHER + FIRST_XOTHER
    cont = ["A:malloc:24", "A:p_calloc:100", "A:new:8", "F:auto:0", "R:m:0:300", "K:all", "L", "W:0:a0", "Q:nullm:0", "S:below:1"]
    envs = [X(), X(PROTECT_BELOW=1, ALIGNMENT=8, FILL=7, SLACKFILL=85, REPORT_ALL_LEAKS=1), X(PROTECT_FREE=0, CHECK_FREQ=1, SHOW_ALLOC=1), X(PROTECT_FREE=24, MALLOC_0_STRATEGY=1, NEW_0_STRATEGY=2, FREE_ACCESS=1), X(MALLOC_0_STRATEGY=2, ALIGNMENT=16, MEMCPY_OVERLAP=1), X(MALLOC_0_STRATEGY=0, MALLOC_FAILEXIT=0)]
    jobs = []
    for k, env in enumerate(envs):
        n = dict(env); n["HX_EARLY"] = "1"
        jobs.append(J(x, "before every constructor, settings %d" % k, n, 3 if t else 2, good + FIRST_BAD + FIRST_XBAD + FIRST_SET + ["F:auto:0", "R:m:0:300", "W:0:a0", "U:m:0"], shards=8))
    # before even the C library has its environment: the defaults apply
    for k, first in enumerate([None] + good):
        n = dict(XENV)
        if first is None:
            n["HX_EARLY"] = "2"
            jobs.append(J(x, "before the C library is set up", n, 2, good + FIRST_BAD + FIRST_XBAD + FIRST_SET + ["F:auto:0", "R:m:0:300", "W:0:a0", "U:m:0"], shards=8))
        elif first[0] in "AKLZ":
            n["HX_FIRST"] = first
            n["HX_WHEN"] = "2"
            jobs.append(J(x, "first call before the C library is set up", n, 1, cont, shards=1))
    for k, env in enumerate(envs if t else envs[:3]):
        for f in good:
            if f in ("M:m:memcpy:4", "M:p:memcpy:-4") and k:
                continue
            if f.startswith("M:") and f.endswith(":4") or f.endswith(":-4"):
                continue
            n = dict(env); n["HX_FIRST"] = f
            jobs.append(J(x, "first call before the constructor, settings %d" % k, n, 2, cont, shards=1))
    c.run(jobs)
    return c.finish()


DOC = {"ALIGNMENT": [2, 8, 64], "PROTECT_BELOW": [1, 2], "FILL": [-1, 0, 7], "SLACKFILL": [0, 85], "CHECK_FREQ": [1, 2], "MALLOC_0_STRATEGY": [0, 1, 2], "NEW_0_STRATEGY": [2],
       "MALLOC_FAILEXIT": [0], "PROTECT_FREE": [0, 8, 100], "MAX_ALLOC": [60], "FREE_ACCESS": [1], "SHOW_ALLOC": [1], "REPORT_ALL_LEAKS": [1], "MEMCPY_OVERLAP": [1], "SUPPRESS_ATEXIT": [1], "SKIPCOUNT_INIT": [3], "OUTPUT_STACKTRACE": [1], "OUTPUT_DEBUG": [1]}
# every value of each variable on its own, the documented defaults included
MORE = {"ALIGNMENT": [1, 4, 16, 32, 128, 256, 1024, 4096], "PROTECT_BELOW": [0, -1], "FILL": list(range(1, 256)), "SLACKFILL": list(range(1, 256)), "CHECK_FREQ": [0, 3, 4, 5, 7, 1000000], "MALLOC_0_STRATEGY": [3],
        "NEW_0_STRATEGY": [3], "MALLOC_FAILEXIT": [1, 2, -1], "PROTECT_FREE": [-1, 1, 4, 12, 16, 24, 40, 1000, 2097151, 2097152, 4194303, 4194304, 2147483647, 2147483648, 4294967295, 4294967296, 4294967304, 18014398509481984, 9223372036854775807],
        "MAX_ALLOC": [-1, 1, 8, 16, 24, 100, 1000, 2097151, 2097152, 4194304, 2147483648, 4294967296, 4294967304, 9223372036854775807], "FREE_ACCESS": [0, 2, -1], "SHOW_ALLOC": [0, 2, -1], "REPORT_ALL_LEAKS": [0, 2, -1], "MEMCPY_OVERLAP": [0, 2, -1], "SUPPRESS_ATEXIT": [0, 2]}
EXTREME = {"ALIGNMENT": 64, "PROTECT_BELOW": 1, "FILL": 7, "SLACKFILL": 85, "CHECK_FREQ": 1, "MALLOC_0_STRATEGY": 1, "NEW_0_STRATEGY": 2, "MALLOC_FAILEXIT": 0, "PROTECT_FREE": 0, "MAX_ALLOC": 8, "FREE_ACCESS": 1, "SHOW_ALLOC": 1, "REPORT_ALL_LEAKS": 1, "MEMCPY_OVERLAP": 1, "OUTPUT_STDERR": 0, "OUTPUT_STDOUT": 1}
COPS = ["A:malloc:24", "A:p_calloc:100", "A:malloc:0", "A:new:0", "A:new:7", "A:p_malloc:5000", "A:memalign:9:64", "F:auto:0", "R:m:0:300", "V:0", "W:0:b0", "W:0:a0", "K:all", "L", "M:p:memcpy:-4", "M:m:memcpy:4", "S:below:1", "S:below:0", "S:align:8", "S:align:1", "S:fill:9", "S:fill:-1", "Q:nullm:0"]
CSMALL = ["A:malloc:24", "A:p_malloc:5", "A:new:7", "A:malloc:0", "F:auto:0", "R:m:0:300", "W:0:b0", "V:0", "L"]

CBIG = CSMALL + ["A:malloc:1100000"]  # needs more from the system: this is where MAX_ALLOC is looked at


def near(name):
    """Names that are almost the name of a setting."""
    full = "DUMA_" + name
    out = {full[:-1], full + "S", full + "_", "X" + full, "_" + full, full.lower(), full[1:], full[:5] + full[6:], full.replace("_", "-", 1), full.replace("_", "", 1), full + " ", full[:-1] + chr(ord(full[-1]) ^ 1), "DUMA_" + name[::-1], full.capitalize()}
    return sorted(x for x in out if x != full and x not in ("DUMA_" + k for k in list(DOC) + ["DISABLE_BANNER"]) and x not in ("MALLOC_0_STRATEGY", "NEW_0_STRATEGY"))


def check_C16():
    c = Check("C16", ALLTAGS | {"sink"})
    w, t = c.work, c.thorough
    x = seqx(w)
    jobs = []
    flat = [(k, v) for k in DOC for v in DOC[k]]

    def cfgjob(kv, depth, ops, lab, extra=None, **kw):
        env = X(**dict(kv))
        if extra:
            env.update(extra)
        if any(k == "MALLOC_FAILEXIT" for k, v in kv) or not kv:
            kw["faults"] = "m"
        jobs.append(J(x, lab, env, depth, ops, shards=kw.pop("shards", 1), **kw))

    cfgjob([], 3, COPS, "documented defaults", shards=8)
    for kv in flat:
        cfgjob([kv], 3 if t else 2, COPS, "one variable: %s=%s" % kv, shards=8 if t else 1)
    for k in MORE:
        for v in MORE[k]:
            cfgjob([(k, v)], 2, COPS if k not in ("FILL", "SLACKFILL") or t else ["A:malloc:24", "A:p_calloc:5", "A:new:7", "F:auto:0", "R:m:0:300", "W:0:b0", "K:all"], "one variable: %s=%s" % (k, v))
            if k not in ("FILL", "SLACKFILL"):
                cfgjob([(k, v)], 4 if t else 3, CBIG if k in ("MAX_ALLOC", "PROTECT_FREE") else CSMALL, "one variable, longer: %s=%s" % (k, v))
    for a, b in itertools.combinations(flat, 2):
        if a[0] != b[0]:
            cfgjob([a, b], 2, COPS, "two variables: %s=%s %s=%s" % (a + b))
            cfgjob([a, b], 4 if t else 3, CSMALL, "two variables, longer: %s=%s %s=%s" % (a + b))
    if t:
        for a, b, d in itertools.combinations(flat, 3):
            if len({a[0], b[0], d[0]}) == 3:
                cfgjob([a, b, d], 2, CSMALL, "three variables: %s=%s %s=%s %s=%s" % (a + b + d))
    # every variable at once
    cfgjob([(k, DOC[k][0]) for k in DOC if k not in ("SHOW_ALLOC",)], 2, COPS, "all variables")
    cfgjob([(k, DOC[k][-1]) for k in DOC if k not in ("MAX_ALLOC",)], 2, COPS, "all variables, other values")
    # names that are not the documented ones have no effect, wherever they stand
    for k in EXTREME:
        cfgjob([], 2, CSMALL + ["A:new:0", "M:m:memcpy:4"], "names near DUMA_%s" % k, {n: str(EXTREME[k]) for n in near(k)})
    cfgjob([], 3, CBIG + ["A:new:0", "M:p:memcpy:-4"], "all near names", {n: str(EXTREME[k]) for k in EXTREME for n in near(k)}, shards=8)
    # a setting is found wherever it stands among other variables, long ones included
    for kv in flat if t else [(k, DOC[k][0]) for k in DOC]:
        pads = {"A%d" % i: "x" * i for i in range(0, 3000, 37)}
        for where in ("first", "last", "middle"):
            env = X(); me = {"DUMA_%s" % kv[0]: str(kv[1])}
            al = {n: str(EXTREME.get(kv[0], 1)) + "=DUMA_%s=1" % kv[0] for n in near(kv[0])}
            e = dict(me) if where == "first" else {}
            e.update(pads); e.update(al if kv[0] in EXTREME else {})
            if where == "middle":
                e.update(me)
            e.update(env)
            if where == "last":
                e.update(me)
            jobs.append(J(x, "%s=%s is the %s variable" % (kv + (where,)), e, 2, CSMALL, shards=1))
    c.run(jobs)
    return c.finish()
