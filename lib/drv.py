"""Common driver: builds the library from /repo's working tree in a scratch directory, runs exploration
jobs in parallel, replays every violation before it is reported, and writes the evidence file."""
import atexit, glob, json, os, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(VERIF, "src")
CPUS = os.cpu_count() or 4


class HarnessError(Exception):
    pass


class NoBuild(Exception):
    """The library or a program against its headers does not build."""


def sh(cmd, cwd=None, env=None, timeout=600, check=True):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = r.stdout.decode("utf-8", "replace")
    if check and r.returncode:
        raise NoBuild("%s\n%s" % (" ".join(cmd), out[-3000:]))
    return r.returncode, out


BASEENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": "/root", "LC_ALL": "C"}
QUIET = {"DUMA_DISABLE_BANNER": "1"}


class Work:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="duma-verif-")
        atexit.register(self.close)
        self.libs = {}
        self.exes = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def lib(self, name, conf=(), cflags=(), cxxstd="c++98", so=False, opt="-O0", cc="gcc", cxx="g++", cppsup=True, extra_inc=(), config=None):
        """Configure and compile the library; returns dict(inc, cobj, xobj, so)."""
        if name in self.libs:
            return self.libs[name]
        d = os.path.join(self.dir, name)
        os.makedirs(os.path.join(d, "confdir"))
        os.makedirs(os.path.join(d, "obj"))
        for f in glob.glob(os.path.join(REPO, "*.h")):
            if os.path.basename(f) not in ("duma_config.h", "verinfo.h"):
                shutil.copy(f, d)
        for f in ("createconf.c",):
            shutil.copy(os.path.join(REPO, f), d)
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"))
        with open(os.path.join(d, "verinfo.h"), "w") as f:
            f.write('#define GIT_SOURCE_VERSION "verif"\n')
        sh(["gcc", "-g", "-O0"] + list(conf) + ["createconf.c", "-o", "createconf"], cwd=d)
        if config:
            rc, out = 0, str(shutil.copy(config, d))
        else:
            rc, out = sh(["./createconf"], cwd=d, check=False, env=BASEENV)
        if not os.path.exists(os.path.join(d, "duma_config.h")):
            raise NoBuild("createconf wrote no duma_config.h\n" + out)
        flags = ["-I" + d, "-g", opt, "-Wall", "-U_FORTIFY_SOURCE"] + list(cflags)
        if so:
            flags += ["-fPIC", "-DPIC", "-DDUMA_SO_LIBRARY"]
        cobj, xobj, procs = [], [], []
        for f in sorted(glob.glob(os.path.join(d, "src", "*.c"))):
            o = os.path.join(d, "obj", os.path.basename(f)[:-2] + ".o")
            procs.append([cc] + flags + ["-c", f, "-o", o])
            cobj.append(o)
        for f in sorted(glob.glob(os.path.join(d, "src", "*.cpp"))) if cppsup else []:
            o = os.path.join(d, "obj", os.path.basename(f)[:-4] + "_cpp.o")
            procs.append([cxx, "-std=" + cxxstd] + flags + ["-c", f, "-o", o])
            xobj.append(o)
        with ThreadPoolExecutor(CPUS) as ex:
            list(ex.map(sh, procs))
        r = {"inc": d, "cobj": cobj, "xobj": xobj, "dir": d, "flags": flags}
        if so:
            r["so"] = os.path.join(d, "libduma.so.0.0.0")
            sh(([cxx] if cppsup else [cc]) + ["-g", "-shared", "-Wl,-soname,libduma.so.0.0.0", "-o", r["so"]] + cobj + xobj + ["-lpthread", "-lc"])
        self.libs[name] = r
        return r

    WRAPS = ["mmap", "mmap64", "munmap", "mprotect", "write"]
    HFLAGS = ["-g", "-O1", "-fno-builtin", "-fno-tree-loop-distribute-patterns", "-Wall", "-Wno-unused-function", "-Wno-unused-result", "-U_FORTIFY_SOURCE"]

    def exe(self, name, lib, csrc, xsrc=(), defs=(), wraps=None, cxxstd="c++98", link=(), cflags=(), perfile={}, cxx="g++"):
        """Compile a harness (C sources, C++ sources, sources that must not see the library's flags) against lib."""
        if name in self.exes:
            return self.exes[name]
        d = os.path.join(self.dir, "exe-" + name)
        os.makedirs(d)
        cmds, objs = [], []
        for f in csrc:
            o = os.path.join(d, os.path.basename(f) + ".o")
            cmds.append(["gcc"] + self.HFLAGS + ["-I" + lib["inc"], "-I" + SRC] + list(defs) + list(cflags) + list(perfile.get(f, ())) + ["-c", os.path.join(SRC, f), "-o", o])
            objs.append(o)
        for f in xsrc:
            o = os.path.join(d, os.path.basename(f) + ".o")
            cmds.append([cxx, "-std=" + cxxstd] + [x for x in self.HFLAGS if "clang" not in cxx or "tree-loop" not in x] + ["-I" + lib["inc"], "-I" + SRC] + list(defs) + list(cflags) + list(perfile.get(f, ())) + ["-c", os.path.join(SRC, f), "-o", o])
            objs.append(o)
        with ThreadPoolExecutor(CPUS) as ex:
            list(ex.map(sh, cmds))
        out = os.path.join(d, name)
        w = ["-Wl," + ",".join("--wrap=" + x for x in (self.WRAPS if wraps is None else wraps))] if (wraps is None or wraps) else []
        libobj = [lib["so"], "-Wl,-rpath," + lib["dir"]] if "so" in lib else (lib["xobj"] if xsrc else []) + lib["cobj"]
        sh(([cxx] if xsrc else ["gcc"]) + ["-g", "-o", out] + objs + libobj + w + list(link) + ["-lpthread"])
        self.exes[name] = out
        return out


class Job:
    def __init__(self, exe, args, env=None, label="", timeout=800, shards=1, tags=None, replay=None):
        self.exe, self.args, self.env, self.label = exe, list(args), dict(env or {}), label
        self.timeout, self.shards, self.tags, self.replay = timeout, shards, tags, replay


SKIPPED = object()


class Check:
    def __init__(self, pid, tags, technique="model checking", level="model_checking"):
        self.pid, self.tags, self.level = pid, set(tags), level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.work = Work()
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "jobs": [], "exhaustive": True}
        self.viol = []   # dicts: tag, what, ops, job info
        self.other = 0
        self.assumptions = []
        self.stateset = set()
        self.known = self.load_known()

    thorough = property(lambda s: s.tier == "thorough")

    def load_known(self):
        k = []
        try:
            for l in open(os.path.join(VERIF, "known_findings.txt")):
                l = l.strip()
                if l.startswith("known: property=%s " % self.pid):
                    k.append(l.split(" ", 2)[2])   # "<matcher>"
        except OSError:
            pass
        return k

    # ---- running explorer jobs -------------------------------------------------------------------
    def run_one(self, job, shard):
        env = dict(BASEENV); env.update(job.env)
        args = [job.exe, job.args[0]]
        sf = None
        if job.args[0] == "explore":
            sf = os.path.join(self.work.dir, "st-%d-%d" % (id(job), shard))
            args += ["states=" + sf]
        if job.shards > 1:
            args += ["shard=%d" % shard, "nshards=%d" % job.shards]
        args += job.args[1:]
        wd = tempfile.mkdtemp(dir=self.work.dir)
        try:
            r = subprocess.run(args, env=env, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=job.timeout)
            out, rc, err = r.stdout.decode("utf-8", "replace"), r.returncode, r.stderr.decode("utf-8", "replace")
        except subprocess.TimeoutExpired as e:
            return None, "timeout after %d s: %s" % (job.timeout, (e.stderr or b"").decode("utf-8", "replace")[-1000:]), -999, ""
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        rep = None
        for l in out.splitlines():
            if l.startswith("{"):
                try:
                    rep = json.loads(l)
                except ValueError:
                    pass
        if sf and os.path.exists(sf):
            with open(sf, "rb") as f:
                b = f.read()
            self.stateset.update((hash(job.label) & 0xffff, x) for x in struct.unpack("<%dQ" % (len(b) // 8), b))
            os.unlink(sf)
        return rep, out[-2000:] + err[-3000:], rc, err

    def run(self, jobs):
        """Run every job.  Once the verdict is settled (many violations, or one and a long time spent) the rest is left out."""
        todo = [(j, s) for j in jobs for s in range(j.shards)]
        bad, spent = [0], {}

        def one(t):
            if bad[0] >= 40 or (bad[0] and time.time() - self.t0 > 300):
                return SKIPPED
            t1 = time.time()
            r = self.run_one(*t)
            spent[t[0].label] = spent.get(t[0].label, 0) + time.time() - t1
            tags = t[0].tags if t[0].tags is not None else self.tags
            if r[0]:
                bad[0] += sum(1 for v in r[0]["violations"] if v["tag"] in tags)
            return r
        with ThreadPoolExecutor(CPUS) as ex:
            res = list(ex.map(one, todo))
        per, broken, skipped = {}, None, 0
        for (j, s), r in zip(todo, res):
            if r is SKIPPED:
                skipped += 1
                continue
            rep, txt, rc, err = r
            if rep is None or rc not in (0, 1):
                # the harness program itself died: the library broke before or outside an explored operation
                if rc == 99 or rc == 2:
                    broken = broken or "%s %s: exit %s\n%s" % (j.label, " ".join(j.args), rc, txt)
                elif rc == -999:
                    broken = broken or "%s: %s" % (j.label, txt)
                else:
                    self.viol.append({"tag": "crash", "what": "program ended with status %s outside an explored operation: %s" % (rc, txt[-600:]), "ops": "(start)", "job": j, "shard": s})
                continue
            d = per.setdefault(j.label, {"label": j.label, "env": {k: v for k, v in j.env.items() if k.startswith("DUMA")}, "transitions": 0, "histories": 0, "deaths": 0, "states": 0, "page_map_checks": 0, "probes": 0})
            d["transitions"] += rep["transitions"]; d["histories"] += rep["histories"]; d["deaths"] += rep["deaths"]
            d["states"] += rep["states"]; d["page_map_checks"] += rep["mapchecks"]; d["probes"] += rep["probes"]
            for k in ("execs", "points", "outcomes"):
                if rep.get(k):
                    d[k] = d.get(k, 0) + rep[k]
            if any(rep["aux"]):
                d["aux"] = [a + b for a, b in zip(d.get("aux", [0] * 16), rep["aux"])]
            self.cov["transitions"] += rep["transitions"]
            self.cov["traces_validated_against_impl"] += rep["histories"]
            if not j.args[0] == "explore" or getattr(j, "ownstates", False):
                self.cov["states"] += rep["states"]
            if len(self.cov["samples"]) < 12:
                self.cov["samples"] += rep["samples"][:2]
            tags = j.tags if j.tags is not None else self.tags
            for v in rep["violations"]:
                if v["tag"] in tags:
                    self.viol.append({"tag": v["tag"], "what": v["what"], "ops": v["ops"], "job": j, "shard": s})
                else:
                    self.other += 1
                    self.cov.setdefault("violations_of_other_properties", [])
                    if len(self.cov["violations_of_other_properties"]) < 5:
                        self.cov["violations_of_other_properties"].append(v["tag"] + ": " + v["what"][:200] + " [" + v["ops"] + "]")
        self.cov["jobs"] += list(per.values())
        if os.environ.get("VERIF_TIMES"):
            for l, v in sorted(spent.items(), key=lambda x: -x[1])[:12]:
                print("%8.1f s  %s" % (v, l))
        if skipped:
            self.cov["exhaustive"] = False
            self.cov["jobs_left_out_after_violations"] = skipped
        if broken and not self.viol:
            raise HarnessError(broken)

    def add(self, label, transitions=0, traces=0, states=0, sample=None, **kw):
        """Evidence of a check that is not a C explorer job."""
        d = {"label": label, "transitions": transitions, "histories": traces, "states": states}
        d.update(kw)
        self.cov["jobs"].append(d)
        self.cov["transitions"] += transitions
        self.cov["traces_validated_against_impl"] += traces
        self.cov["states"] += states
        if sample and len(self.cov["samples"]) < 12:
            self.cov["samples"].append(sample)

    def violation(self, tag, what, ops, replay_cmd=None):
        self.viol.append({"tag": tag, "what": what, "ops": ops, "job": None, "cmd": replay_cmd})

    # ---- confirm and report ------------------------------------------------------------------------
    def confirm(self, v):
        j = v["job"]
        if j is None:
            return True
        tags = j.tags if j.tags is not None else self.tags
        if v["ops"] != "(start)" and j.args[0] == "explore":
            for _ in range(2):
                extra = [a for a in j.args[1:j.args.index("--")] if a.startswith(("foreign=", "timeout=", "reps=", "always=", "handler=", "what="))] if "--" in j.args else []
                rj = Job(j.exe, (j.replay or ["replay"]) + extra + ["--", v["ops"]], env=j.env, label="replay", timeout=j.timeout, tags=j.tags)
                rep, txt, rc, err = self.run_one(rj, 0)
                if rep and any(x["tag"] in tags for x in rep["violations"]):
                    return True
                if rep is None and rc not in (99, 2, -999):
                    return True
        rep, txt, rc, err = self.run_one(j, v["shard"])
        return rep is None or any(x["tag"] in tags for x in rep["violations"])

    def finish(self):
        uniq, seen = [], set()
        for v in self.viol:
            k = (v["tag"], v["ops"])
            if k not in seen:
                seen.add(k); uniq.append(v)
        uniq.sort(key=lambda v: len(v["ops"]))
        reported, known_hit, unrep = [], {}, 0
        for v in uniq:
            key = "%s | %s | %s" % (v["tag"], v["job"].label if v["job"] else "-", v["ops"])
            m = [k for k in self.known if key == k]
            if m:
                known_hit[m[0]] = v
                continue
            if len(reported) >= 5:
                reported.append(v); continue
            if self.confirm(v):
                reported.append(v)
            else:
                unrep += 1
        os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
        for f in glob.glob(os.path.join(VERIF, "evidence", "replays", self.pid + "-*")):
            os.unlink(f)
        for k, v in known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for i, v in enumerate(reported[:5]):
            p = os.path.join(VERIF, "evidence", "replays", "%s-%d.json" % (self.pid, i))
            j = v["job"]
            with open(p, "w") as f:
                json.dump({"property": self.pid, "tag": v["tag"], "what": v["what"], "ops": v["ops"], "label": j.label if j else "", "env": j.env if j else {}, "args": j.args if j else [], "cmd": v.get("cmd")}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("  [%s] %s" % (v["tag"], v["what"]))
            print("  history: %s   (%s)" % (v["ops"], j.label if j else ""))
        self.cov["states"] += len(self.stateset)
        if unrep:
            self.cov["unreproduced"] = unrep
            print("note: %d observation(s) did not reproduce and were not reported" % unrep)
        ev = {"property": self.pid, "tier": "thorough" if self.thorough else "quick", "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(reported)}
        if self.level == "fault_enumeration":
            self.cov.setdefault("evaluations", self.cov["transitions"])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: states=%d transitions=%d traces=%d violations=%d wall=%.1fs" % (self.pid, self.tier, self.cov["states"], self.cov["transitions"], self.cov["traces_validated_against_impl"], len(reported), time.time() - self.t0))
        return 1 if reported else 0
