"""C19 on the object engine: delete statements in destructors, exceptions, mismatching forms."""
from .profiles import *

OTAGS = {"once", "trace", "location", "lock", "crash", "align", "mismatch", "falsealarm", "depth", "null", "book", "data", "pages"}
OENV = {"DUMA_SHOW_ALLOC": "1"}
CHAINKINDS = "new,new[3],virtual,nothrow[],class-with-own-delete,while-unwinding"


def check_C19():
    c = Check("C19", OTAGS)
    w, t = c.work, c.thorough
    macros = {"": [], "old new, ": ["-DDUMA_OLD_NEW_MACRO"], "old delete, ": ["-DDUMA_OLD_DEL_MACRO"], "old both, ": ["-DDUMA_OLD_NEW_MACRO", "-DDUMA_OLD_DEL_MACRO"]}
    plan = []
    for std in ("c++98", "c++11", "c++14", "c++17", "c++20", "c++23"):
        for m in macros:
            for cxx, cc in (("g++", "gcc"), ("clang++", "clang")):
                if t or std in ("c++98", "c++17") and cxx == "g++" or m == "" and cxx == "g++" or m == "old both, " and std == "c++20" or (m == "" and std in ("c++11", "c++23")):
                    plan.append((std, m, cxx, cc, []))
    plan.append(("c++17", "old delete, ", "g++", "gcc", ["-DDUMA_NO_THREAD_SAFETY"]))
    plan.append(("c++98", "", "g++", "gcc", ["-DDUMA_NO_THREAD_SAFETY"]))
    e = dict(XENV); e.update(QUIET); e.update(OENV)

    def build(i):
        std, m, cxx, cc, more = plan[i]
        fl = macros[m] + more
        return w.exe("obj%d" % i, w.lib("obj%d" % i, cflags=fl, cxxstd=std, cxx=cxx, cc=cc), [], ["obj.cpp", "obj_plain.cpp"], defs=fl, wraps=["write"], cxxstd=std, cflags=["-w"], cxx=cxx)
    with ThreadPoolExecutor(3) as ex:
        exes = list(ex.map(build, range(len(plan))))
    jobs = []
    for i, (std, m, cxx, cc, more) in enumerate(plan):
        lab = "%s%s %s%s" % (m, cxx, std, ", no thread safety" if more else "")
        lead = m == "" and cxx == "g++" and std in ("c++98", "c++17") and not more

        def job(args, what, shards=1, env=e):
            j = Job(exes[i], args, env, lab + ": " + what, shards=shards, timeout=860)
            j.ownstates = True
            jobs.append(j)
        job(["trees", "depth=%d" % (4 if t and lead else 3 if lead or t else 2)], "trees of objects", 8 if lead or t else 1)
        job(["trees", "depth=%d" % (3 if t or lead else 2), "leak"], "trees of objects, leaks listed first", 8 if t or lead else 1)
        job(["chain", "lo=1", "hi=250"] + ["kinds=" + (CHAINKINDS if t or lead else "new")], "nested deletes", 4 if lead else 1)
        job(["toodeep", "lo=258", "hi=%d" % (300 if t else 262), "kinds=new,new[3],virtual"], "too many nested deletes")
        job(["pairs"], "every form of allocation with every form of release", 2)
        if lead or t:
            for x in ({"DUMA_PROTECT_BELOW": "1"}, {"DUMA_PROTECT_FREE": "0"}, {"DUMA_ALIGNMENT": "16", "DUMA_CHECK_FREQ": "1"}, {"DUMA_FREE_ACCESS": "1", "DUMA_PROTECT_FREE": "50"}):
                y = dict(e); y.update(x)
                job(["trees", "depth=%d" % (3 if t else 2)], "trees of objects, " + " ".join("%s=%s" % z for z in x.items()), 2, y)
                job(["pairs"], "every form with every form, " + " ".join("%s=%s" % z for z in x.items()), 1, y)
    # exceptions that pass through the operators themselves: a new-handler that throws
    x = seqx(w)
    for h in (1, 2, -1, -2, -3, -101):
        jobs.append(J(x, "new-handler %d" % h, X(MALLOC_FAILEXIT=h % 2), 2, A([a for a in X_ALLOC if a[0] != "m" or a == "macnewa"], [24, 2000000]) + ["F:auto:0"], faults="m", fdepth=1, handler=h, shards=1))
    c.run(jobs)
    return c.finish()
