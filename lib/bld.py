"""C22: every documented combination of build options, compiled and explored."""
import itertools
from .profiles import *
from . import drv

STATIC = ["DUMA_LIB_NO_LEAKDETECTION", "DUMA_LIB_NO_CPP_SUPPORT", "DUMA_LIB_PREFER_ATEXIT", "DUMA_LIB_PREFER_GETENV", "DUMA_LIB_NO_HANG_MSG",
          "DUMA_NO_GLOBAL_MALLOC_FREE", "DUMA_EXPLICIT_INIT", "DUMA_NO_THREAD_SAFETY", "DUMA_OLD_NEW_MACRO", "DUMA_OLD_DEL_MACRO", "DUMA_NO_STRERROR"]
SHARED = ["DUMA_SO_NO_LEAKDETECTION", "DUMA_SO_NO_CPP_SUPPORT", "DUMA_SO_PREFER_ATEXIT", "DUMA_SO_PREFER_GETENV", "DUMA_SO_NO_HANG_MSG", "DUMA_NO_STRERROR"]
CORE = {"over", "under", "inacc", "freed", "pages", "data", "fill", "null", "usable", "detect", "slack", "bad", "mismatch", "leak", "align", "book", "diag", "zero", "budget", "bounded", "banner", "sink", "legal", "access", "report", "memres", "memfault", "overlap", "falsestop", "mem"} | COMMON
SHORT = lambda o: o.replace("DUMA_", "").replace("LIB_", "").replace("SO_", "")


def subsets(opts, t):
    if t:
        return [s for n in range(len(opts) + 1) for s in itertools.combinations(opts, n)]
    s = [x for n in range(3) for x in itertools.combinations(opts, n)]
    s += [tuple(o for o in opts if o != x) for x in opts] + [tuple(opts)]
    return list(dict.fromkeys(s))


def ops_for(opts, what, so):
    cpp = not any("NO_CPP" in o for o in opts)
    glob = so or "DUMA_NO_GLOBAL_MALLOC_FREE" not in opts
    leak = not any("NO_LEAK" in o for o in opts)
    if what == "accesses":
        a = ["A:malloc:24", "A:calloc:5000", "A:memalign:100:64", "A:strdup:9", "F:auto:0", "F:auto:o", "R:m:0:300"]
        if glob:
            a += ["A:p_malloc:4097", "A:p_memalign:50:8192", "R:p:0:7"]
        if cpp:
            a += ["A:new:24", "A:newa:40", "A:fnew_nt:9"]
        if leak:
            a += ["L"]
    elif what == "bytes":
        a = ["A:malloc:24", "A:memalign:100:64", "W:0:b0:255", "W:0:B0:1", "W:0:A0:1", "F:auto:0", "K:all"] + (["W:0:a0:128", "K:0", "R:m:0:300"] if len(opts) < 2 else [])
        if glob:
            a += ["A:p_calloc:4097"]
        if cpp:
            a += ["A:newa:24"]
    elif what == "zero sizes":
        a = ["A:malloc:0", "A:calloc:0", "A:memalign:0:64", "A:malloc:24", "A:memalign:9:24", "A:strdup:1", "F:auto:0", "R:m:0:30", "U:m:0", "K:0", "K:all", "Q:free:0", "Q:check:0", "M:m:memcpy:16", "M:m:strcat:16"] + (["L"] if leak else []) + (["A:new:0", "A:newa:0", "Q:del:0"] if cpp else [])
    elif what == "table growth":
        a = ["G:1", "G:13", "G:40", "F:auto:0", "F:auto:o", "A:malloc:5000", "A:calloc:24", "P:30", "K:all"] + (["L"] if leak else [])
    elif what == "every form":
        a = A(["malloc", "calloc", "realloc0", "strdup"] + (["p_malloc", "p_calloc", "p_strdup"] if glob else []), [24]) + A(["memalign", "posix"] + (["p_aligned"] if glob else []), [24], 64) + A(["valloc"], [24])
        a += ["F:%s:0" % f for f in C_FREE if glob or not f.startswith("p_")]
        if cpp:
            ms = lambda l: [f for f in l if leak or not f.startswith("m") or f.startswith("mac")]
            a += A(ms(X_ALLOC), [24]) + ["A:macnew16:16"] + ["F:%s:0" % f for f in ms(X_FREE)]
    else:
        a = ["A:malloc:24", "A:calloc:5000", "A:malloc:0", "F:auto:0"] + ["E:%s:%s" % (f, b) for f in ["free", "m_realloc", "m_usable", "check"] + (["p_free", "p_realloc"] if glob else []) for b in ("freed", "int1", "stack", "end", "guard", "m1")]
        if cpp:
            a += ["A:new:24", "A:newa:24", "F:free:0", "F:del:0", "F:dela:0", "F:fdel:0"] + ["E:del:freed", "E:dela:int1"]
            if leak:
                a += ["A:mnew:24", "A:mnewa:9", "F:mdel:0", "F:mdela:0"]
    return a


def whole_process(c, w, lib, name, opts, so, n):
    """exit report, hang message, accesses before duma_init: whole processes of one configuration."""
    leak = not any("NO_LEAK" in o for o in opts)
    d = os.path.join(w.dir, "whole-" + name)
    os.makedirs(d)
    exe = os.path.join(d, "exitp")
    drv.sh(["gcc", "-g", "-O0", "-fno-builtin", "-Werror=implicit-function-declaration", "-I" + lib["inc"]] + (["-DDUMA_SO_LIBRARY"] if so else ["-DWANT_EXPLICIT_INIT"] if "DUMA_EXPLICIT_INIT" in opts else []) + [os.path.join(drv.SRC, "exitp.c")] + ([lib["so"], "-Wl,-rpath," + lib["dir"]] if so else lib["cobj"]) + ["-lpthread", "-o", exe])
    expl = "DUMA_EXPLICIT_INIT" in opts and not so
    for how, blocks, before, env in itertools.product("reta", (0, 1, 2), (0, 2) if expl else (0,), ({}, {"DUMA_PROTECT_BELOW": "1"}, {"DUMA_SUPPRESS_ATEXIT": "1"})):
        e = dict(BASEENV); e.update(QUIET); e.update(env)
        r = subprocess.run([exe, how, str(blocks), "i" + "p" * before], env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        n[0] += 1
        o = r.stderr.decode("utf-8", "replace")
        ops = "%s %s ends '%s' with %d blocks, %d before duma_init, %s" % (name, "shared" if so else "static", how, blocks, before, env)
        hang = any("PREFER_ATEXIT" in x for x in opts) and leak and not any("NO_HANG" in x for x in opts)
        if ("egistering with atexit" in o) != hang:
            c.violation("report", "the message about atexit() is %s: %r" % ("missing" if hang else "printed", o[:300]), ops)
        if how == "a":
            if "DUMA Abort" not in o or r.returncode == 7:
                c.violation("report", "a block released twice is not reported: status %s %r" % (r.returncode, o[-300:]), ops)
            continue
        if r.returncode != 0:
            c.violation("legal", "a legal program ended with status %s: %r" % (r.returncode, o[-300:]), ops)
        want = blocks if leak and not env.get("DUMA_SUPPRESS_ATEXIT") else 0
        if o.count("size=50 type='malloc()'") != want or ("Reported %d leak(s)" % want not in o if want else "type=" in o):
            c.violation("report", "%d blocks not released, but the report at exit is %r" % (want, o[-400:]), ops)


def check_C22():
    c = Check("C22", CORE)
    w, t = c.work, c.thorough
    sets = [(s, False, {}) for s in subsets(STATIC, t)] + [(s, True, {}) for s in subsets(SHARED, t)]
    # (always -O0, as the makefile does: with optimisation a compiler may drop the malloc/free pair of the start-up self-test)
    tools = [("gcc", "g++", "-O0", "c++17"), ("clang", "clang++", "-O0", "c++20")] + ([("gcc", "g++", "-O0", s) for s in ("c++11", "c++14", "c++20", "c++23")] + [("clang", "clang++", "-O0", s) for s in ("c++98", "c++11", "c++17", "c++23")] if t else [])
    sets += [((), so, dict(cc=a, cxx=b, opt=o, cxxstd=s)) for a, b, o, s in tools for so in (False, True)]
    d = os.path.join(w.dir, "pre")
    os.makedirs(d)
    pre, prex = os.path.join(d, "pre"), os.path.join(d, "prex")
    drv.sh(["gcc", "-g", "-O0", "-fno-builtin", "-I" + drv.SRC, os.path.join(drv.SRC, "pre.c"), "-lpthread", "-o", pre])
    drv.sh(["g++", "-g", "-O0", "-fno-builtin", "-w", "-I" + drv.SRC, os.path.join(drv.SRC, "pre.c"), "-lpthread", "-o", prex])
    drv.sh(["gcc", "-g", "-O0", "-fno-builtin", "-I" + drv.SRC, "-c", os.path.join(drv.SRC, "pre.c"), "-o", pre + ".o"])
    drv.sh(["g++", "-g", "-O0", "-fno-builtin", "-w", "-I" + drv.SRC, "-c", os.path.join(drv.SRC, "pre.c"), "-o", prex + ".o"])
    n = [0]

    def build(i):
        opts, so, kw = sets[i]
        name = "%s%d" % ("s" if so else "a", i)
        cpp = not any("NO_CPP" in o for o in opts)
        lab = ("shared: " if so else "static: ") + (", ".join(SHORT(o) for o in opts) or "default") + ("" if not kw else " " + " ".join(kw.values()))
        try:
            lib = w.lib(name, conf=["-D" + o for o in opts], so=so, **kw)
            exe = w.exe("q" + name, lib, ["seq.c", "api_c.c", "api_p.c", "api_mem_m.c", "api_mem_p.c"], ["api_x.cpp"] if cpp else [], defs=(["-DWITH_CPP"] if cpp else []) + (["-DHX_DYN", "-DDUMA_SO_LIBRARY"] if so else []), wraps=[] if so else None, cxxstd=kw.get("cxxstd", "c++98"), link=["-rdynamic"] if so else [])
            whole_process(c, w, lib, name, opts, so, n)
        except drv.NoBuild as e:
            c.violation("build", "this configuration does not build: " + str(e)[-1500:], lab)
            return []
        jobs = []
        if t or len(opts) < 2:
            for st in range(4):
                jobs.append(Job(exe, explore(2, ops_for(opts, "zero sizes", so), foreign=1), X(MALLOC_0_STRATEGY=st, NEW_0_STRATEGY=2 + st % 2, SHOW_ALLOC=1), lab + ": zero sizes, strategy %d" % st))
        for what, envs in (("accesses", [{}, {"PROTECT_BELOW": 1}]), ("bytes", [{}, {"PROTECT_BELOW": 1, "ALIGNMENT": 16}]), ("bad releases", [{}]), ("every form", [{}]), ("table growth", [{}])):
            for x in envs:
                dp = {"accesses": 3 if t or len(opts) < 2 else 2, "bytes": 3, "bad releases": 3, "every form": 2, "table growth": 4 if t else 3}[what]
                jobs.append(Job(exe, explore(dp, ops_for(opts, what, so), foreign=1), X(**x), "%s: %s" % (lab, what), timeout=860))
        if not so and (t or len(opts) < 2) and not kw:
            ix = w.exe("i" + name, lib, ["inp.c", "api_c.c", "api_p.c", "api_mem_m.c", "api_mem_p.c"], ["api_x.cpp"] if cpp else [], defs=["-DWITH_CPP"] if cpp else [], wraps=["mmap", "mmap64"])
            jobs.append(Job(ix, ["mem", "max=12"], X(PROTECT_FREE=0), lab + ": copies, separate regions"))
            for ov in (0, 1):
                jobs.append(Job(ix, ["overlap", "arena=7", "max=4"], X(MEMCPY_OVERLAP=ov), lab + ": copies, one arena, MEMCPY_OVERLAP=%d" % ov))
            for p, kind in ((["gcc", pre + ".o"], "C"), (["g++", prex + ".o"], "C++")):
                if kind == "C++" or cpp:
                    px = os.path.join(w.dir, "whole-" + name, "pre" + kind)
                    drv.sh([p[0], "-g", p[1]] + lib["cobj"] + (lib["xobj"] if kind == "C++" else []) + ["-lpthread", "-o", px])
                    for x in ({}, {"DUMA_PROTECT_BELOW": "1"}):
                        j = Job(px, ["all"] + ([] if cpp else ["nocpp"]) + (["noglobal"] if "DUMA_NO_GLOBAL_MALLOC_FREE" in opts else []) + (["init"] if "DUMA_EXPLICIT_INIT" in opts else []) + ([] if t or not opts else ["few"]), dict(QUIET, **x), "%s: under a %s program" % (lab, kind), timeout=860)
                        j.ownstates = True
                        if not ("DUMA_NO_THREAD_SAFETY" in opts):
                            jobs.append(j)
        if so:
            for p, kind in ((pre, "C"), (prex, "C++")):
                for x in ({}, {"DUMA_PROTECT_BELOW": "1"}) if t or len(opts) < 2 else ({},):
                    e = dict(QUIET); e.update(x); e["LD_PRELOAD"] = lib["so"]
                    j = Job(p, ["all"] + ([] if cpp else ["nocpp"]) + ([] if t or not opts else ["few"]), e, "%s: preloaded under a %s program" % (lab, kind), shards=2 if t else 1, timeout=860)
                    j.ownstates = True
                    jobs.append(j)
        return jobs
    with ThreadPoolExecutor(drv.CPUS) as ex:
        jobs = [j for js in ex.map(build, range(len(sets))) for j in js]
    c.run(jobs)
    c.add("whole processes of every configuration", transitions=n[0], traces=n[0], states=n[0])
    return c.finish()
