"""C20: messages."""
import itertools, re
from .profiles import *
from . import drv

SINK = {"sink"} | COMMON
FILE900 = "/proc/self/fd/900"


def prnx(w, name="prn", lib="base", **kw):
    return w.exe(name, w.lib(lib, **kw), ["prn.c", "api_prn.c"], wraps=["mmap", "mmap64", "mprotect"], perfile={"api_prn.c": ["-Wno-builtin-macro-redefined"]})


def combos():
    for o, e, f in itertools.product((0, 1), (0, 1), (None, FILE900)):
        yield o, e, f


def sinkenv(o, e, f, **kw):
    n = dict(XENV)
    n["HX_SINKS"] = "1"
    n["DUMA_OUTPUT_STDOUT"], n["DUMA_OUTPUT_STDERR"] = str(o), str(e)
    if f:
        n["DUMA_OUTPUT_FILE"] = f
    for k, v in kw.items():
        n["DUMA_" + k] = str(v)
    return n


def whole(c, w, t):
    """Whole processes: every combination of outputs, banner, exit handler and way to end."""
    lib = w.lib("base")
    d = os.path.join(w.dir, "exitp")
    os.makedirs(d)
    exe = os.path.join(d, "exitp")
    drv.sh(["gcc", "-g", "-O0", "-fno-builtin", "-I" + lib["inc"], os.path.join(drv.SRC, "exitp.c")] + lib["cobj"] + ["-lpthread", "-o", exe])
    n = [0]

    def run(env, args, fkind):
        n[0] += 1
        wd = tempfile.mkdtemp(dir=d)
        e = dict(BASEENV)
        for k, v in env.items():
            if v is not None:
                e["DUMA_" + k] = str(v)
        old = b""
        p = None
        if fkind == "old":
            p = os.path.join(wd, "log"); old = b"earlier text\nwithout newline"
        elif fkind == "new":
            p = os.path.join(wd, "log")
        elif fkind == "none":
            e["DUMA_OUTPUT_FILE"] = os.path.join(wd, "no", "such", "dir")
        elif fkind == "dir":
            e["DUMA_OUTPUT_FILE"] = wd
        elif fkind == "empty":
            e["DUMA_OUTPUT_FILE"] = ""
        elif fkind == "link":
            p = os.path.join(wd, "target"); os.symlink(p, os.path.join(wd, "log")); e["DUMA_OUTPUT_FILE"] = os.path.join(wd, "log")
        elif fkind == "long":
            p = os.path.join(wd, "x" * 250)
        elif fkind == "rel":
            p = os.path.join(wd, "log"); e["DUMA_OUTPUT_FILE"] = "./log"
        if p and "DUMA_OUTPUT_FILE" not in e:
            e["DUMA_OUTPUT_FILE"] = p
        if old:
            open(p, "wb").write(old)
        r = subprocess.run([exe] + args, env=e, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=60)
        f = None
        if p:
            f = open(p, "rb").read() if os.path.exists(p) else b""
        f2 = open(os.path.join(wd, "out2"), "rb").read() if os.path.exists(os.path.join(wd, "out2")) else b""
        extra = set(os.listdir(wd)) - {"log", "target", "out2", "x" * 250}
        shutil.rmtree(wd)
        return r.returncode, r.stdout, r.stderr, f, old, f2, extra

    def bad(what, env, args, fkind):
        c.violation("sink", what, "%s %s file=%s" % (" ".join("%s=%s" % kv for kv in sorted(env.items()) if kv[1] is not None), " ".join(args), fkind))

    rc, so, se, f, old, f2, ex = run({"DISABLE_BANNER": None}, ["r", "0", "-"], "unset")
    ban = se
    if rc or so or not ban.startswith(b"DUMA") or b"Copyright" not in ban:
        bad("start-up message missing: status %s, stdout %r, stderr %r" % (rc, so[:200], se[:200]), {}, ["r", "0", "-"], "unset")
        return
    rec = rb"\nDUMA: (?:Allocating \d+ byte\(s\) at [^\n]*?\(-?\d+\)\.(?: This is ANSI[^\n]*)?|Freeing \d+ byte\(s\) at [^\n]*?\(-?\d+\) \(Allocated from [^\n]*?\(-?\d+\)\)\.)"
    rep1 = rb"\n*DUMA: ptr=0x[0-9a-f]+ size=50 type='malloc\(\)' alloced from exitp\.c\(501\) not freed\n"

    def judge(env, args, fkind):
        rc, so, se, f, old, f2, ex = run(env, args, fkind)
        how, leaks, o = args[0], int(args[1]), args[2]
        on = {"o": int(env.get("OUTPUT_STDOUT") or 0) != 0, "e": int(env.get("OUTPUT_STDERR") if env.get("OUTPUT_STDERR") is not None else 1) != 0, "f": f is not None}
        banner = int(env.get("DISABLE_BANNER") or 0) == 0
        show = int(env.get("SHOW_ALLOC") or 0) != 0
        sup = int(env.get("SUPPRESS_ATEXIT") or 0) != 0
        if how == "a":
            if rc != -4:
                bad("status %s instead of SIGILL" % rc, env, args, fkind)
        elif rc != (-9 if how == "k" else 0):
            bad("status %s" % rc, env, args, fkind)
        if ex:
            bad("created %s" % ex, env, args, fkind)
        if old and not f.startswith(old):
            bad("the file lost what it contained: %r" % f[:200], env, args, fkind)
        if f is not None and f.startswith(old):
            f = f[len(old):]
        body = (rb"(?P<tr>(?:%s)*)" % rec) if show else b""
        end = b""
        if how == "a":
            end = rb"\nDUMA Aborting: [^\n]*already freed[^\n]*\n"
        elif how in "ret" and not sup:
            end = rep1 * leaks
            if leaks or how == "t":  # (the C library's memory of the thread)
                end += rb"\n*DUMA: Reported %d leak\(s\)\.\n+DUMA: There are \d+ extra leak\(s\) without allocation information\.\n" % leaks
            if show:
                end += rb"\n*DUMA:   Allocation\(s\): \d+\nDUMA: Deallocation\(s\): \d+\n"
        if o == "-":
            for name, text, en in (("stdout", so, on["o"]), ("stderr", se, on["e"]), ("the file", f, on["f"])):
                if text is None:
                    continue
                if not en:
                    if text:
                        bad("%s is not enabled but got %r" % (name, text[:200]), env, args, fkind)
                    continue
                m = re.fullmatch((re.escape(ban) if banner else b"") + body + end, text, re.S)
                if not m:
                    bad("%s got %r" % (name, text[:600]), env, args, fkind)
                elif show and (m.group("tr").count(b"Allocating 40 byte(s) at exitp.c(500).") != 1 or m.group("tr").count(b"Freeing 40 byte(s) at exitp.c(500) (Allocated from exitp.c(500)).") != 1 or m.group("tr").count(b"Allocating 50 byte(s) at exitp.c(501).") != leaks):
                    bad("%s: the trace is not complete: %r" % (name, text[-600:]), env, args, fkind)
            en = [x for x, y in ((so, on["o"]), (se, on["e"]), (f, on["f"])) if y]
            if any(x != en[0] for x in en):
                bad("the outputs differ: %r" % en, env, args, fkind)
        else:  # only the report; what was printed before is the banner
            st = {"o": on["o"], "e": on["e"], "f": on["f"], "2": False}
            for ch in o:
                if ch in "sS": st["o"] = ch == "s"
                if ch in "eE": st["e"] = ch == "e"
                if ch == "f": st["f"], st["2"] = False, True
                if ch == "F": st["f"] = st["2"] = False
            for name, text, first, later in (("stdout", so, on["o"], st["o"] and "1" not in o), ("stderr", se, on["e"], st["e"] and "2" not in o), ("the file", f, on["f"], st["f"]), ("the new file", f2, False, st["2"])):
                if text is None:
                    continue
                if not re.fullmatch((re.escape(ban) if banner and first else b"") + ((body + end) if later else b"") if not show else rb".*", text, re.S):
                    bad("after the program changed its outputs (%s), %s got %r" % (o, name, text[:300]), env, args, fkind)

    jobs = []
    for so, se, fk, dis, sup, show in itertools.product((None, 0, 1, 2, -1), (None, 0, 1, 2), ("unset", "old", "new"), (None, 1), (None, 1), (None, 1)):
        env = {"OUTPUT_STDOUT": so, "OUTPUT_STDERR": se, "DISABLE_BANNER": dis, "SUPPRESS_ATEXIT": sup, "SHOW_ALLOC": show}
        for how, leaks in (("r", 1), ("e", 0), ("a", 0)) if not t else (("r", 0), ("r", 1), ("e", 2), ("_", 1), ("t", 1), ("k", 1), ("a", 1)):
            jobs.append((env, [how, str(leaks), "-"], fk))
    for fk, how, dis, sup, show, leaks in itertools.product(("none", "dir", "empty", "link", "long", "rel"), "re_tka", (None, 0, 1), (None, 0, 1, 2), (None, 0, 1), (0, 3)):
        jobs.append(({"OUTPUT_STDOUT": 1, "OUTPUT_STDERR": None, "DISABLE_BANNER": dis, "SUPPRESS_ATEXIT": sup, "SHOW_ALLOC": show}, [how, str(leaks), "-"], fk))
    for o in ["1", "2", "12", "s", "e", "se", "S", "E", "SE", "f", "fs", "fE", "F", "FE", "sE", "1s", "2f", "12f"]:
        for so, se, fk in itertools.product((0, 1), (0, 1), ("unset", "old")):
            jobs.append(({"OUTPUT_STDOUT": so, "OUTPUT_STDERR": se, "DISABLE_BANNER": None}, ["r", "2", o], fk))
    with ThreadPoolExecutor(CPUS) as ex:
        list(ex.map(lambda j: judge(*j), jobs))
    c.add("whole processes: outputs x banner x trace x exit handler x way to end", transitions=n[0], traces=n[0], states=len(jobs), sample=str(jobs[len(jobs) // 2]))


def check_C20():
    c = Check("C20", {"sink", "text", "end"} | COMMON)
    w, t = c.work, c.thorough
    x, p = seqx(w), prnx(w)
    ops = ["A:malloc:24", "A:p_calloc:100", "A:memalign:9:64", "A:p_posix:9:32", "A:new:8", "A:newa:7", "A:l_malloc70k:5", "A:malloc:0", "A:strdup:9", "F:auto:0", "F:auto:1", "R:m:0:300", "R:p:0:3", "R:m:0:0", "V:0", "W:0:b0", "K:all", "L", "E:free:static", "E:check:foreign", "S:below:1", "S:fill:7", "Q:nullm:0", "M:m:memcpy:16", "M:m:memcpy:4"]
    jobs = []
    for o, e, f in combos():
        for show in (0, 1):
            jobs.append(Job(x, ["explore", "depth=%d" % (3 if t or (o, e, bool(f), show) in ((1, 1, True, 1), (0, 1, False, 0)) else 2), "--"] + ops, sinkenv(o, e, f, SHOW_ALLOC=show, DISABLE_BANNER=1), "outputs %d%d%d trace %d" % (o, e, bool(f), show), shards=8 if t or o + e + bool(f) == 3 or (e and not o and not f) else 4, tags=SINK))
    jobs.append(Job(x, explore(3, ["A:malloc:5000000000", "A:newa:4294967300", "A:memalign:4294967297:64", "A:malloc:24", "F:auto:0", "R:m:0:40", "E:free:freed", "F:del:0", "E:check:int1"]), sinkenv(1, 1, FILE900, SHOW_ALLOC=1, DISABLE_BANNER=1, FILL=-1), "blocks of 4 GB", shards=4, tags=SINK))
    small = ["A:malloc:24", "A:p_calloc:8", "A:new:8", "F:auto:0", "R:m:0:300", "W:0:b0", "L", "E:free:static", "E:check:foreign"]
    for o, e, f in combos():
        if o or e or f:
            for show in (1, 0):
                jobs.append(Job(x, ["explore", "depth=%d" % (3 if t else 2), "faults=w", "--"] + small, sinkenv(o, e, f, SHOW_ALLOC=show, DISABLE_BANNER=1), "interrupted and partial writes %d%d%d trace %d" % (o, e, bool(f), show), shards=4, tags=SINK))
    n = sinkenv(1, 1, "/nonexistent/dir/file", SHOW_ALLOC=1, DISABLE_BANNER=1)
    jobs.append(Job(x, ["explore", "depth=2", "--"] + ops, n, "file cannot be opened", shards=4, tags=SINK))
    for o, e, f in combos() if t else [(0, 1, None), (1, 1, FILE900), (0, 0, FILE900)]:
        base = dict(DUMA_OUTPUT_STDOUT=str(o), DUMA_OUTPUT_STDERR=str(e), DUMA_DISABLE_BANNER="1", DUMA_PROTECT_FREE="0")
        if f:
            base["DUMA_OUTPUT_FILE"] = f
        lab = " %d%d%d" % (o, e, bool(f))
        jobs.append(Job(p, ["trace", "hi=%d" % (40000 if t else 4000), "step=1"], dict(base, DUMA_SHOW_ALLOC="1", DUMA_MALLOC_FAILEXIT="0"), "values in the trace" + lab, shards=8))
        jobs.append(Job(p, ["addr"], base, "addresses" + lab, shards=8))
        if o or e or f: # without any output there are no totals to read
            jobs.append(Job(p, ["counts", "hi=%d" % (2500 if t else 700)], dict(base, DUMA_SHOW_ALLOC="1"), "totals" + lab, shards=1))
        for fe in "01":
            jobs.append(Job(p, ["ends"], dict(base, DUMA_MALLOC_FAILEXIT=fe), "signal dispositions" + lab + " FAILEXIT=" + fe, shards=1))
    c.run(jobs)
    whole(c, w, t)
    return c.finish()
