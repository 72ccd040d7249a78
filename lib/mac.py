"""C21: assertion, checked-array and function-protection macros."""
import itertools, signal
from .profiles import *
from . import drv


def check_C21():
    c = Check("C21", {"continued", "stopped", "report", "once", "element"} | COMMON)
    w, t = c.work, c.thorough
    lib = w.lib("base")
    # (name, compiler, flags, language, reduced table, modes)
    few = ["-DMAC_FEW"]
    variants = [("c", "gcc", ["-std=gnu17", "-O0", "-DMAC_PROT"], "c", [], "fduap")]
    variants += [("c++", "g++", ["-std=c++98", "-O0", "-DMAC_PROT"], "c++", few, "fduap"),
                 ("clang", "clang", ["-std=gnu17", "-O0", "-DMAC_PROT"], "c", few, "fuap"),
                 ("clang++ c++23", "clang++", ["-std=c++23", "-O0", "-DMAC_PROT"], "c++", few, "fuap"),
                 ("other compiler", "gcc", ["-std=gnu17", "-O0", "-DMAC_PROT", "-DMAC_NOGNU"], "c", few, "fuap"),
                 ("other compiler c++", "g++", ["-std=c++98", "-O0", "-DMAC_PROT", "-DMAC_NOGNU"], "c++", few, "p")]
    stds = {"c": ["gnu89", "c99", "gnu11", "gnu17", "gnu2x"], "c++": ["c++98", "c++11", "gnu++14", "c++17", "c++20", "c++23"]}
    if t:
        for lang, ccs in (("c", ("gcc", "clang")), ("c++", ("g++", "clang++"))):
            for cc, s, o in itertools.product(ccs, stds[lang], ("-O0", "-O1", "-O2", "-O3", "-Os")):
                p = ["-DMAC_PROT"] if o == "-O0" else []
                variants.append(("%s %s %s" % (cc, s, o), cc, ["-std=" + s, o] + p, lang, [] if o == "-O2" and s in ("gnu17", "c++17") else few, "fduap" if p else "fdua"))
    else:
        variants += [("gcc -O2", "gcc", ["-std=gnu89", "-O2"], "c", few, "fua"), ("g++ -O2", "g++", ["-std=c++20", "-O2"], "c++", few, "ua"),
                     ("clang -O2", "clang", ["-std=gnu2x", "-O2"], "c", few, "ua"), ("clang++ -O2", "clang++", ["-std=c++17", "-O2"], "c++", few, "ua"), ("gcc -O3", "gcc", ["-std=c99", "-O3"], "c", few, "ua"), ("g++ -O1", "g++", ["-std=c++11", "-O1"], "c++", few, "ua")]
    d = os.path.join(w.dir, "mac")
    os.makedirs(d)

    def build(i):
        name, cc, fl, lang, tab, modes = variants[i]
        exe = os.path.join(d, "mac%d" % i)
        rc, o = drv.sh([cc] + fl + tab + ["-g", "-w", "-U_FORTIFY_SOURCE", "-I" + lib["inc"], "-x", lang, os.path.join(drv.SRC, "mac.c"), "-x", "none", "-Wl,--wrap=write"] + lib["cobj"] + ["-lpthread", "-o", exe], check=False)
        return exe, rc, o
    with ThreadPoolExecutor(CPUS) as ex:
        built = list(ex.map(build, range(len(variants))))
    jobs = []
    for (name, cc, fl, lang, tab, modes), (exe, rc, o) in zip(variants, built):
        c.add("compiled: %s %s" % (cc, " ".join(fl)), 1, 1, 1)
        if rc:
            c.violation("continued", "a program using the macros does not compile with %s %s: %s" % (cc, " ".join(fl), o[:300]), "(compile) " + name)
            continue
        for m in modes:
            sh = 8 if m in "fd" and (not tab or t) else 2 if m in "fd" else 1
            j = Job(exe, [m] + (["thorough"] if t and m in "da" else []), dict(QUIET), "%s: %s" % (name, {"f": "checked arrays, every index", "d": "checked arrays of a size known when running", "u": "forms of use", "a": "assertions", "p": "function protection"}[m]), shards=sh)
            jobs.append(j)
    c.run(jobs)
    # whole processes
    n = 0
    for (name, cc, fl, lang, tab, modes), (exe, rc, o) in list(zip(variants, built))[:6]:
        if rc:
            continue
        for how, disp, thr, (so, se, fi) in itertools.product("arwetv", "dib", "mt", [(0, 1, 0), (1, 0, 0), (0, 0, 1), (1, 1, 1), (0, 0, 0)]):
            for v in "34":
                if v == "3" and disp != "d":
                    continue
                n += 1
                wd = tempfile.mkdtemp(dir=d)
                env = dict(BASEENV); env.update({"DUMA_DISABLE_BANNER": "1", "DUMA_OUTPUT_STDOUT": str(so), "DUMA_OUTPUT_STDERR": str(se), "DUMA_SUPPRESS_ATEXIT": "1"})
                if fi:
                    env["DUMA_OUTPUT_FILE"] = os.path.join(wd, "f")
                what = "%s: %s %s, SIGSEGV %s, in %s, stdout=%d stderr=%d file=%d" % (name, {"a": "DUMA_ASSERT", "r": "CA_REF read", "w": "CA_REF write", "e": "DUMA_FN_PROT_END", "t": "DUMA_FN_PROT_RET", "v": "DUMA_FN_PROT_RET_VOID"}[how], "fails" if v == "4" else "holds", {"d": "default", "i": "ignored", "b": "blocked"}[disp], {"m": "main", "t": "a thread"}[thr], so, se, fi)
                try:
                    r = subprocess.run([exe, "proc", how + v, disp, thr], env=env, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=20)
                    rc2, o1, e1 = r.returncode, r.stdout, r.stderr
                except subprocess.TimeoutExpired as x:
                    rc2, o1, e1 = "timeout", x.stdout or b"", x.stderr or b""
                f1 = open(os.path.join(wd, "f"), "rb").read() if fi and os.path.exists(os.path.join(wd, "f")) else b""
                shutil.rmtree(wd)
                if v == "3":
                    if rc2 != 0 or not o1.endswith(b"CONTINUED\nENDED\n") or e1 or f1:
                        c.violation("stopped", "status %s, output %r %r %r" % (rc2, o1[-200:], e1[-200:], f1[-200:]), what)
                    continue
                if b"CONTINUED" in o1 or b"ENDED" in o1:
                    c.violation("continued", "the program went on", what)
                elif not isinstance(rc2, int) or rc2 >= 0:
                    c.violation("continued", "the process was not stopped by a signal: status %s" % rc2, what)
                for on, txt, nm in ((so, o1, "stdout"), (se, e1, "stderr"), (fi, f1, "file")):
                    if on and not re_ok(txt, how):
                        c.violation("report", "report on %s: %r" % (nm, txt[-200:]), what)
    c.add("whole processes", n, n, n)
    return c.finish()


def re_ok(txt, how):
    return {"a": b"i != 4", "r": b"arr", "w": b"arr"}.get(how, b"") in txt and b"mac.c" in txt
