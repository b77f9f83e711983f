"""Shared machinery of the checks: building drivers from /repo, running them,
running TLC, confirming rejections, writing evidence.  Python 3 stdlib only."""
import json, os, random, re, shutil, subprocess, sys, time, traceback, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:/opt/veriftools/tla/CommunityModules.jar"
CXX = os.environ.get("VF_CXX", "clang++-18")
CC = os.environ.get("VF_CC", "clang-18")
NCPU = min(8, os.cpu_count() or 1)
BASEFLAGS = ["-std=c++17", "-g1", "-w", "-I" + REPO + "/include", "-I" + REPO + "/dep", "-I" + DRV]
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:alloc_dealloc_mismatch=0:max_malloc_fill_size=67108864:malloc_fill_byte=202:"
            "free_fill_byte=219:max_free_fill_size=67108864:allocator_may_return_null=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:symbolize=0:handle_abort=0"}


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what = what
        self.replay = replay


class Check:
    """One run of the check of one property."""

    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv: self.tier = "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(self.seed * 1000003 + int(hashlib.sha1(prop.encode()).hexdigest()[:6], 16))
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "build", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.evdir = os.path.join(VERIF, "evidence")
        os.makedirs(self.evdir, exist_ok=True)
        self.cov = {}
        self.assumptions = []
        self.samples = []
        self.states = 0
        self.distinct = 0
        self.traces = 0
        self.evals = 0
        self.cases = set()
        self.log_lines = []

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def say(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------- building
    def run(self, cmd, timeout=600, env=None, cwd=None, stdin=None, check=False):
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd or self.work, input=stdin)
        except subprocess.TimeoutExpired as t:
            return 124, t.stdout or b"", t.stderr or b""
        if check and p.returncode:
            raise RuntimeError("%s failed (%d): %s" % (cmd, p.returncode, p.stderr.decode(errors="replace")[-3000:]))
        return p.returncode, p.stdout, p.stderr

    def build(self, jobs):
        """jobs: list of (output object, source, flags). Compiled in parallel."""
        def one(j):
            out, src, flags = j
            comp = CC if src.endswith(".c") else CXX
            fl = [f for f in BASEFLAGS if not (src.endswith(".c") and f.startswith("-std"))]
            rc, o, e = self.run([comp] + fl + flags + ["-c", src, "-o", out], timeout=700)
            if rc:
                raise RuntimeError("cannot compile %s: %s" % (src, e.decode(errors="replace")[-4000:]))
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, jobs))

    def link(self, out, objs, flags):
        self.run([CXX] + objs + flags + ["-o", out], check=True)

    def path(self, *a):
        return os.path.join(self.work, *a)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, extra=(), mem="2g", jopts=()):
        meta = os.path.join(self.work, "tlc-%s-%d" % (module, random.getrandbits(60)))
        e = {"JAVA_TOOL_OPTIONS": ""}
        e.update(env or {})
        cmd = (["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m",
                "-XX:-UsePerfData", "-Djava.io.tmpdir=" + self.work]
               + list(jopts) + ["-cp", tlajars(), "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
                                "-metadir", meta, "-config", os.path.join(SPEC, cfg)] + list(extra)
               + [os.path.join(SPEC, module + ".tla")])
        rc, out, err = self.run(cmd, timeout=timeout, env=e, cwd=SPEC)
        shutil.rmtree(meta, ignore_errors=True)
        s = out.decode(errors="replace")
        r = {"rc": rc, "out": s, "err": err.decode(errors="replace")}
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", s)
        r["generated"], r["states"] = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", s)
        r["depth"] = int(m.group(1)) if m else 0
        r["ok"] = rc == 0 and "No error has been found" in s
        return r

    def broken(self, module, cfg, workers=4):
        """A variant of the design that does break a property: TLC has to find it."""
        r = self.tlc(module, cfg, workers=workers, mem="4g")
        if "is violated" not in r["out"] and "Temporal properties were violated" not in r["out"]:
            raise RuntimeError("specification %s/%s finds nothing wrong: %s" % (module, cfg, r["out"][-2000:]))

    def mc(self, module, cfg, workers=NCPU, timeout=700, **kw):
        """Model check a design-level configuration. A failure here says that the
        specification itself is broken: an error of the check, not a violation."""
        r = self.tlc(module, cfg, workers=workers, timeout=timeout, mem="8g", **kw)
        if not r["ok"]:
            raise RuntimeError("specification %s/%s does not hold: %s" % (module, cfg, r["out"][-3000:] + r["err"][-500:]))
        self.states += r["states"]
        self.distinct += r["states"]
        self.cov.setdefault("model_runs", []).append({"module": module, "config": cfg, "states": r["states"], "generated": r["generated"], "depth": r["depth"]})
        self.transitions = getattr(self, "transitions", 0) + r["generated"]
        return r

    def validate(self, module, tracefile, nevents, cfg=None, timeout=600):
        """Does the specification accept the recorded trace?  Returns the index of
        the first event that is not explained (0-based), or None."""
        r = self.tlc(module, cfg or module + ".cfg", env={"VF_TRACE": tracefile}, timeout=timeout)
        self.states += r["states"]
        self.transitions = getattr(self, "transitions", 0) + r["generated"]
        if r["ok"]:
            return None
        out = r["out"]
        if r["rc"] == 124 or "StackOverflow" in out + r["err"] or "OutOfMemory" in out + r["err"] or "java.lang.Out" in out:
            raise RuntimeError("TLC did not finish on %s: rc %d %s" % (tracefile, r["rc"], out[-3000:] + r["err"][-1500:]))
        if "TraceAccepted" in out and r["depth"] > 0:
            if r["depth"] - 1 >= nevents:
                raise RuntimeError("TLC failed for another reason: " + out[-3000:])
            return r["depth"] - 1
        # an observation the specification cannot even evaluate (an index outside of the
        # matrix, an unknown name): not allowed either
        if "The behavior up to this point is" in out or "The error occurred when TLC was evaluating" in out:
            ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
            if ls and ("Attempted to" in out or "verflow when computing" in out or "CHOOSE" in out or "not in the domain" in out or "was not" in out):
                return int(ls[-1]) - 1
        raise RuntimeError("TLC error: " + out[-3000:] + r["err"][-1500:])

    # ------------------------------------------------------------- reporting
    def replay(self, name, content):
        d = os.path.join(self.evdir, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s" % (self.prop, name))
        with open(p, "w") as f:
            f.write(content if isinstance(content, str) else json.dumps(content, indent=1))
        return p

    def evidence(self, violations=0):
        cov = dict(self.cov)
        samples = self.samples[:6] or ["(none)"]
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=getattr(self, "transitions", 0), traces_validated_against_impl=self.traces, samples=samples)
            cov.setdefault("evaluations", self.evals)
        else:
            cov.update(evaluations=self.evals, distinct_nontrivial=len(self.cases), samples=samples)
            cov.setdefault("rule", "see DESIGN.md")
            cov["tlc_states"] = self.states
            cov["traces_validated"] = self.traces
        ev = {"property": self.prop, "tier": "thorough" if self.tier == "thorough" else "quick", "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        with open(os.path.join(self.evdir, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def violation(self, what, replay):
        raise Violation(what, replay)


_jars = None


def tlajars():
    global _jars
    if _jars is None:
        import glob
        d = "/opt/veriftools/tla"
        js = glob.glob(d + "/**/*.jar", recursive=True)
        js.sort(key=lambda p: (0 if p.endswith("tla2tools.jar") else 1, p))
        _jars = ":".join(js)
    return _jars


def main(prop, level, fn):
    try:
        c = Check(prop, level)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    rc = 0
    try:
        fn(c)
        c.evidence(0)
        c.say("held on everything explored")
    except Violation as v:
        try:
            c.evidence(1)
        except Exception:
            traceback.print_exc()
        print("violation:", v.what)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay), flush=True)
        rc = 1
    except BaseException:
        traceback.print_exc()
        rc = 2
    finally:
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(c.work, ignore_errors=True)
            try:
                os.rmdir(os.path.join(VERIF, "build"))
            except OSError:
                pass
    sys.exit(rc)


# --------------------------------------------------------------- histories
def read_histories(path):
    """Splits a recorded ndjson trace into histories (lists of lines)."""
    res = []
    for line in open(path):
        line = line.strip()
        if not line:
            continue
        if line.startswith('{"e":"Begin"'):
            res.append([])
        if not res:
            raise RuntimeError("trace does not start with Begin: " + line[:200])
        res[-1].append(line)
    return res


def given_up(res):
    """The driver stops after some histories that do not end."""
    return bool(res) and any('"e":"Crash","sig":14' in x for x in res[-1])


def validate_histories(c, module, hists, rerun, label, shard=None, cfg=None, confirm=3, timeout=600, describe=None):
    """hists: list of (key, lines). Validates them in shards with TLC; for a rejected
    history, records it again with rerun(key) -> lines and confirms the rejection.
    A rejected recording that does not repeat is still a recording of the real code
    and counts, unless it can come from the machine (time limit, killed)."""
    if not hists:
        return
    total = sum(sum(map(len, h[1])) for h in hists)
    nsh = shard or NCPU
    nsh = max(1, min(nsh, len(hists), total // 30000 + 1))
    order = sorted(range(len(hists)), key=lambda i: -sum(map(len, hists[i][1])))
    bins = [[0, []] for _ in range(nsh)]
    for i in order:
        b = min(bins, key=lambda b: b[0])
        b[0] += sum(map(len, hists[i][1])) + 200
        b[1].append(i)

    def check(idx, group):
        bad = []
        group = list(group)
        while group:
            f = c.path("trace-%s-%d-%d.ndjson" % (label, idx, len(group)))
            lines = [l for i in group for l in hists[i][1]]
            with open(f, "w") as o:
                o.write("\n".join(lines) + "\n")
            at = c.validate(module, f, len(lines), cfg=cfg, timeout=timeout)
            os.unlink(f)
            if at is None:
                c.traces += len(group)
                break
            k = 0
            for gi, i in enumerate(group):
                if at < k + len(hists[i][1]):
                    bad.append((i, at - k))
                    c.traces += gi
                    group = group[gi + 1:]
                    break
                k += len(hists[i][1])
            if len(bad) >= 2:
                break
        return bad
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda t: check(*t), [(k, b[1]) for k, b in enumerate(bins) if b[1]]))
    c.evals += sum(len(h[1]) for h in hists)
    bad = sorted(sum(res, []))
    first = None
    for i, at in bad[:6]:
        key, lines = hists[i]
        ok = False
        for attempt in range(confirm):
            new = rerun(key)
            f = c.path("confirm-%s.ndjson" % label)
            with open(f, "w") as o:
                o.write("\n".join(new) + "\n")
            at2 = c.validate(module, f, len(new), cfg=cfg, timeout=timeout)
            if at2 is not None:
                report(c, module, label, describe, key, new, at2)
        if machine_made(lines[at]):
            c.say("not repeated, ignored:", lines[at][:200])
        elif first is None:
            first = (key, lines, at)
    if first:
        report(c, module, label, describe, first[0], first[1], first[2], " (in one recording out of %d)" % (confirm + 1))


def machine_made(line):
    d = safe(line)
    return isinstance(d, dict) and d.get("e") == "Crash" and (d.get("sig") in (9, 14) or d.get("rc") in (97, 98))


def report(c, module, label, describe, key, lines, at, more=""):
    rep = c.replay("%s.json" % label, {
        "property": c.prop, "specification": module, "history": describe(key) if describe else str(key),
        "event_not_allowed": safe(lines[at]), "index": at, "trace": [safe(x) for x in lines[max(0, at - 12):at + 1]]})
    c.violation("%s: %s does not allow event %d of the recorded history%s: %s" % (label, module, at, more, lines[at][:1500]), rep)


def safe(line):
    try:
        return json.loads(line)
    except Exception:
        return line
