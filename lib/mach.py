"""C26: createconf on every machine of a family, stopped at every access, with every set of options; the library on another machine."""
import hashlib, itertools, re
from .profiles import *
from . import drv

BOTH = ["NO_CPP_SUPPORT", "NO_LEAKDETECTION", "PREFER_ATEXIT", "PREFER_GETENV", "NO_HANG_MSG"]   # DUMA_LIB_x, DUMA_SO_x
STATIC = ["NO_GLOBAL_MALLOC_FREE", "EXPLICIT_INIT", "NO_THREAD_SAFETY", "OLD_NEW_MACRO", "OLD_DEL_MACRO"]   # static library only
ALL = ["NO_STRERROR"]
NAMES = ["DUMA_" + n for n in BOTH + STATIC + ALL]
GIVEN = ["DUMA_LIB_" + n for n in BOTH] + ["DUMA_SO_" + n for n in BOTH] + ["DUMA_" + n for n in STATIC + ALL]

PROBE = r'''
#include "duma_config.h"
#include "duma_config.h"
#include <stdio.h>
int main(void) {
  int init = 0;
#ifdef DUMA_GNU_INIT_ATTR
  init = 1;
#endif
  printf("%ld %ld %d %d %d %d %d\n", (long)DUMA_PAGE_SIZE, (long)DUMA_MIN_ALIGNMENT, (int)sizeof(DUMA_ADDR), (int)sizeof(DUMA_SIZE), (DUMA_ADDR)-1 > 0, (DUMA_SIZE)-1 > 0, init);
  return 0;
}
'''
RUN = r'''
#include <stdlib.h>
#include <unistd.h>
long __real_sysconf(int k);
static long other;
long __wrap_sysconf(int k) { return other && k == _SC_PAGESIZE ? other : __real_sysconf(k); }
#include <string.h>
extern char **environ;
static void early(int c, char **v, char **e) { (void)c; (void)v; for (; *e; ++e) if (!strncmp(*e, "OTHER=", 6)) { const char *p = *e + 6; while (*p) other = other * 10 + (*p++ - '0'); } }
__attribute__((section(".preinit_array"), used)) static void (*pre)(int, char **, char **) = early;
int main(void) { char *p = (char *)malloc(100); if (p) p[99] = 1; (void)!write(1, "ran\n", 4); free(p); return 0; }
'''


def wanted(kind, given):
    on = set()
    for n in BOTH:
        if "DUMA_%s_%s" % ("SO" if kind == "so" else "LIB", n) in given:
            on.add("DUMA_" + n)
    for n in STATIC:
        if kind == "lib" and "DUMA_" + n in given:
            on.add("DUMA_" + n)
    for n in ALL:
        if "DUMA_" + n in given:
            on.add("DUMA_" + n)
    return on


def check_C26():
    c = Check("C26", {"machine", "stopped", "options", "refuse", "align", "over", "inacc", "data"} | COMMON)
    w, t = c.work, c.thorough
    d = os.path.join(w.dir, "mach")
    os.makedirs(d)
    src = os.path.join(drv.REPO, "createconf.c")
    lock = __import__("threading").Lock()
    probed = {}

    def probe(path, lang="c"):
        """What a program that includes this configuration sees."""
        text = open(path).read()
        k = hashlib.sha1(re.sub(r" on \w+ +\d+ \d+", "", text).encode()).hexdigest() + lang
        with lock:
            if k in probed:
                return probed[k]
        q = tempfile.mkdtemp(dir=d)
        shutil.copy(path, q + "/duma_config.h")
        cc, std = {"c": ("gcc", "gnu89"), "c17": ("gcc", "gnu17"), "c++": ("g++", "c++98")}[lang]
        open(q + "/p.c", "w").write(PROBE)
        rc, o = drv.sh([cc, "-std=" + std, "-w", "-I" + q, "-x", lang[:3] if lang == "c++" else "c", "p.c", "-o", "p"], cwd=q, check=False)
        r = None if rc else tuple(int(x) for x in subprocess.run([q + "/p"], stdout=subprocess.PIPE).stdout.split())
        shutil.rmtree(q)
        with lock:
            probed[k] = r
        return r

    # --- the machine -------------------------------------------------------------------------------------------------------
    exes = {}
    for std in ("gnu89", "c99", "gnu17") if not t else ("gnu89", "c99", "gnu99", "gnu11", "gnu17", "gnu2x"):
        e = os.path.join(d, "cc-" + std)
        drv.sh(["gcc", "-g", "-O0", "-w", "-std=" + std, "-fsanitize=thread", "-c", src, "-o", e + ".o"])
        drv.sh(["gcc", "-g", "-O0", "-c", os.path.join(drv.SRC, "mach.c"), "-o", e + "-m.o"])
        drv.sh(["gcc", e + ".o", e + "-m.o", "-Wl,--wrap=sysconf", "-Wl,--wrap=getpagesize", "-o", e])
        exes[std] = e

    def run(exe, env):
        q = tempfile.mkdtemp(dir=d)
        n = dict(BASEENV); n.update(env)
        r = subprocess.run(["bash", "-c", "exec 9>count; exec \"$0\"", exe], cwd=q, env=n, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        f = os.path.join(q, "duma_config.h")
        cnt = open(q + "/count").read().split()
        return q, r.returncode, f if os.path.exists(f) else None, int(cnt[0]) if cnt else 0

    ptr = 8
    steps = [[1 << i for i in range(k + 1)] for k in (1, 2, 3, 4)]
    plan = [(std, s, pg) for std in exes for s in itertools.product(*steps) for pg in ((4096, 8192, 16384, 65536) if std == "gnu17" or t else (4096,))]

    def machine(a):
        std, s, pg = a
        lab = "machine that needs alignment %s for 2, 4, 8, 16 bytes, page size %d, -std=%s" % ("/".join(map(str, s)), pg, std)
        q, rc, f, n = run(exes[std], {"MACH_STRICT": ",".join(map(str, s)), "MACH_PAGE": str(pg)})
        r = []
        if rc not in (0, 78):
            r.append(("machine", "createconf ended with status %d" % rc, lab))
        elif not f:
            r.append(("machine", "no configuration was written", lab))
        else:
            for lang in ("c", "c++"):
                p = probe(f, lang)
                want = (pg, max(s), ptr, ptr, 1, 1, 1)
                if p is None:
                    r.append(("machine", "the configuration cannot be used from %s" % lang, lab))
                elif p != want:
                    r.append(("machine", "the configuration says page size, alignment, width of addresses and sizes, unsigned (2), constructors = %s instead of %s" % (p, want), lab))
        shutil.rmtree(q)
        return r
    with ThreadPoolExecutor(CPUS) as ex:
        res = list(ex.map(machine, plan))
    for r in res:
        for v in r:
            c.violation(*v)
    c.add("machines x page sizes x standards", len(plan), len(plan) * 2, len(plan))

    # --- stopped at every write --------------------------------------------------------------------------------------------
    stops = []
    for std, e in exes.items():
        q, rc, f, n = run(e, {})
        shutil.rmtree(q)
        stops += [(std, k) for k in range(1, n + 1)]

    def halted(a):
        std, k = a
        lab = "stopped at access %d, -std=%s" % (k, std)
        q, rc, f, n = run(exes[std], {"MACH_STOP": str(k)})
        r = []
        if rc != 77:
            r.append(("stopped", "createconf ended with status %d" % rc, lab))
        elif f:
            p = probe(f)
            if p is None:
                r.append(("stopped", "the configuration left behind is not usable", lab))
            elif p[0] != 4096 or p[1] not in (1, 2, 4, 8, 16) or p[2:] != (ptr, ptr, 1, 1, 1):
                r.append(("stopped", "the configuration left behind says %s" % (p,), lab))
        shutil.rmtree(q)
        return r
    with ThreadPoolExecutor(CPUS) as ex:
        res = list(ex.map(halted, stops))
    for r in res:
        for v in r:
            c.violation(*v)
    c.add("stopped at every access", len(stops), len(stops), len(stops))

    # --- options -----------------------------------------------------------------------------------------------------------
    sets = set()
    for k in range(5 if t else 3):
        for x in itertools.combinations(GIVEN, k):
            sets.add(x)
            if k < (4 if t else 2):
                sets.add(tuple(g for g in GIVEN if g not in x))
    users = [()] + [(n,) for n in NAMES] + [tuple(NAMES)]

    def options(given):
        q = tempfile.mkdtemp(dir=d)
        lab = "createconf " + (" ".join("-D" + g for g in given) or "without options")
        r = []
        rc, o = drv.sh(["gcc", "-O0", "-w"] + ["-D" + g for g in given] + [src, "-o", "cc"], cwd=q, check=False)
        if rc:
            r.append(("options", "createconf does not compile: " + o[-200:], lab))
        else:
            drv.sh([q + "/cc"], cwd=q, check=False, env=BASEENV)
            open(q + "/e.c", "w").write('#include "duma_config.h"\n')
            for kind, us in itertools.product(("lib", "so"), users):
                if len(given) > 1 and len(given) < len(GIVEN) - 1 and us not in ((), tuple(NAMES)) and not t:
                    continue
                rc, o = drv.sh(["gcc", "-E", "-dM"] + (["-DDUMA_SO_LIBRARY"] if kind == "so" else []) + ["-D" + u for u in us] + ["e.c"], cwd=q, check=False)
                on = {l.split()[1] for l in o.splitlines() if l.startswith("#define ") and len(l.split()) > 1} & set(NAMES)
                want = wanted(kind, given)
                if rc:
                    r.append(("options", "the configuration cannot be included: " + o[-200:], lab)); break
                if on != want:
                    r.append(("options", "%s library%s: %s" % ("shared" if kind == "so" else "static", ", compiled with -D" + " -D".join(us) if us else "", "; ".join(["%s is in force" % x for x in sorted(on - want)] + ["%s is not in force" % x for x in sorted(want - on)])), lab))
                    break
        shutil.rmtree(q)
        return r
    sets = sorted(sets, key=lambda x: (len(x), x))
    with ThreadPoolExecutor(CPUS) as ex:
        res = list(ex.map(options, sets))
    for r in res:
        for v in r:
            c.violation(*v)
    c.add("sets of options x kind of library x definitions of the compiling program", len(sets), len(sets) * 2 * len(users), len(sets))

    # --- the library on another machine ---------------------------------------------------------------------------------------
    confs = {}
    for a in (1, 2, 4, 8, 16):
        for pg in (4096, 8192, 16384, 65536) if a == 1 else (4096,):
            q, rc, f, n = run(exes["gnu17"], {"MACH_STRICT": "%d,%d,%d,%d" % (min(a, 2), min(a, 4), min(a, 8), a), "MACH_PAGE": str(pg)})
            if f:
                confs[(a, pg)] = f
    open(d + "/run.c", "w").write(RUN)
    cases = []
    for (a, pg), f in confs.items():
        if a == 1:
            L = w.lib("page%d" % pg, config=f)
            e = os.path.join(d, "run%d" % pg)
            drv.sh(["gcc", "-w", "-g", d + "/run.c", "-o", e, "-Wl,--wrap=sysconf"] + L["cobj"] + ["-lpthread"])
            cases += [(e, pg, sp) for sp in (1024, 2048, 4096, 8192, 16384, 32768, 65536)]
    for e, pg, sp in cases:
        lab = "configured for pages of %d bytes, machine with pages of %d" % (pg, sp)
        n = dict(BASEENV); n.update({"DUMA_DISABLE_BANNER": "1", "OTHER": str(sp)})
        r = subprocess.run([e], env=n, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        ran = b"ran" in r.stdout
        if pg == sp and sp == 4096 and (not ran or r.returncode):
            c.violation("refuse", "the program did not run: status %d, %r" % (r.returncode, r.stderr[-200:]), lab)
        if pg != sp and (ran or b"DUMA" not in r.stderr):
            c.violation("refuse", "the program %s" % ("ran although pages have another size" if ran else "was stopped without a diagnostic: status %d %r" % (r.returncode, r.stderr[-100:])), lab)
    c.add("library on machines of another page size", len(cases), len(cases), len(cases))
    jobs = []
    for (a, pg), f in confs.items():
        if pg == 4096:
            e = seqc(w, name="seqc-align%d" % a, lib="align%d" % a, config=f)
            jobs.append(J(e, "configured for alignment %d" % a, E(), 2 + t, A(C_ALLOC, [1, 3, 6, 8, 17, 4097]) + ["F:auto:0", "R:m:0:3", "R:p:0:40", "S:align:1", "S:align:4"]))
            jobs.append(J(e, "configured for alignment %d, every size" % a, E(), 1, A(["malloc", "p_malloc", "calloc"], range(1, 70))))
    c.run(jobs)
    return c.finish()
