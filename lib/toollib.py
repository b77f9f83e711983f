"""Runs the command-line tools in scratch directories and records what they do."""
import os, json, shutil, signal, struct, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import vf, lib

CPP = {"convert": [], "convert_blocked": [], "expanded": [], "permute": [], "ipermute": ["-DINVPERM"], "sort": [], "prepare": ["-O2"]}
CT = ["double2float", "one2zero", "pprint"]
ALL = list(CPP) + CT


def build(c, flavours=("asan", "opt"), only=None):
    """Compiles the tools from /repo; returns flavour -> (tool -> program, env)."""
    names = only or ALL
    jobs, res = [], {}
    for fl in flavours:
        cf = lib.FLAV[fl][0] if fl == "asan" else []
        jobs += [(c.path("t-common-%s.o" % fl), vf.REPO + "/src/common.cpp", cf + ["-fopenmp"]), (c.path("t-mm_io-%s.o" % fl), vf.REPO + "/dep/mm_io/mm_io.c", cf)]
        for t in names:
            if t in CPP:
                src = vf.REPO + "/src/tools/%s.cpp" % ("permute" if t == "ipermute" else t)
                jobs.append((c.path("t-%s-%s.o" % (t, fl)), src, ["-fopenmp"] + cf + [f for f in CPP[t] if not (fl == "asan" and f.startswith("-O"))]))
            else:
                jobs.append((c.path("t-%s-%s.o" % (t, fl)), vf.REPO + "/src/tools/%s.c" % t, cf))
    c.build(jobs)
    preload = c.path("preload.so")
    c.run([vf.CXX, "-std=c++17", "-O1", "-w", "-shared", "-fPIC", vf.DRV + "/preload.cpp", "-o", preload, "-ldl"], check=True)

    def link(ft):
        fl, t = ft
        lf = lib.FLAV[fl][1]
        objs = [c.path("t-%s-%s.o" % (t, fl))]
        if t in CPP:
            c.link(c.path("tool-%s-%s" % (t, fl)), objs + [c.path("t-common-%s.o" % fl), c.path("t-mm_io-%s.o" % fl)], lf)
        else:
            c.run([vf.CC] + objs + [f for f in lf if f != "-fopenmp"] + ["-o", c.path("tool-%s-%s" % (t, fl))], check=True)
    with ThreadPoolExecutor(vf.NCPU) as ex:
        list(ex.map(link, [(fl, t) for fl in flavours for t in names]))
    for fl in flavours:
        res[fl] = ({t: c.path("tool-%s-%s" % (t, fl)) for t in names}, dict(lib.FLAV[fl][2], LD_PRELOAD=preload, OMP_WAIT_POLICY="passive"))
    return res


def sweep(pid):
    for d in ("/dev/shm/", "/tmp/"):
        try:
            os.unlink(d + "__KMP_REGISTERED_LIB_%d_%d" % (pid, os.getuid()))
        except OSError:
            pass


def files(root):
    res = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            try:
                if os.path.islink(p):
                    res[os.path.relpath(p, root)] = b"link"
                    continue
                res[os.path.relpath(p, root)] = open(p, "rb").read()
            except OSError:
                res[os.path.relpath(p, root)] = b""
    return res


def dirs(root):
    return {os.path.relpath(os.path.join(d, x), root) for d, ds, _ in os.walk(root) for x in ds}


def tokens(bs, wide, every=False):
    """Values of the numbers in text files."""
    t = {}
    for b in bs:
        if b[:2] != b"%%" and not every:
            continue
        for w in b.split():
            try:
                v = float(w)
                t[w] = struct.pack("<d", v) if wide else struct.pack("<f", v)
            except (ValueError, OverflowError):
                continue
    return [[list(k), list(v)] for k, v in t.items()]


def status(rc):
    if rc == 0:
        return 0
    if rc in (99, 124) or rc < 0 and rc != -signal.SIGABRT:
        return 2
    return 1


class Session:
    """One directory in which tools run."""
    def __init__(self, c, prog, tag):
        self.c, self.progs, self.env = c, prog[0], prog[1]
        self.root = c.path("d-" + tag)
        self.tmp = c.path("x-" + tag)
        shutil.rmtree(self.root, ignore_errors=True)
        shutil.rmtree(self.tmp, ignore_errors=True)
        os.makedirs(self.root)
        os.makedirs(self.tmp)
        self.ev = [{"e": "Begin"}]

    def file(self, n, b):
        p = os.path.join(self.root, n)
        if os.path.dirname(n):
            os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(b)
        self.ev.append({"e": "File", "n": n, "b": list(b)})

    def gone(self, n):
        os.unlink(os.path.join(self.root, n))
        self.ev.append({"e": "Gone", "n": n})

    def parents(self, names):
        for n in names:
            if os.path.dirname(n) and len(os.path.basename(n)) < 256:
                os.makedirs(os.path.join(self.root, os.path.dirname(n)), exist_ok=True)

    def setup(self, n, kind):
        """Obstacles: a directory or a dangling link where an output would go."""
        p = os.path.join(self.root, n)
        if kind == "dir":
            os.makedirs(p)
        else:
            os.rmdir(p)

    def run(self, tool, args, absolute=False, fault=None, limit=None, hindered=False, key="", workers=None):
        before, bd = files(self.root), dirs(self.root)
        env = dict(os.environ, **self.env)
        env.update(VF_TMP=self.tmp, TMPDIR=self.tmp, OMP_NUM_THREADS=str(workers or 2))
        if fault:
            env["VF_FAULT"] = fault

        def pre():
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        real = [os.path.join(self.root, a) if absolute and k < len(args) - (tool == "convert" and len(args) == 5) else a for k, a in enumerate(args)]
        p = subprocess.Popen([self.progs[tool]] + real, cwd=self.root, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE if tool == "pprint" else subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=pre)
        out = b""
        try:
            out = patient(p) or b""
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 124
            self.late = True
        sweep(p.pid)
        after, ad = files(self.root), dirs(self.root)
        touched = [[n, list(after[n])] for n in sorted(after) if before.get(n) != after[n]] + [[n + "/", []] for n in sorted(ad - bd)]
        wide = tool == "sort"
        text = [b for b in list(before.values()) + [after[n[0]] for n in touched if n[0] in after]]
        left = sorted(os.listdir(self.tmp))
        shutil.rmtree(self.tmp)
        os.makedirs(self.tmp)
        self.ev.append({"e": "Run", "t": tool, "a": list(args), "rc": status(rc), "hindered": int(bool(hindered or fault or limit is not None)), "key": key, "touched": touched,
                        "gone": sorted((set(before) - set(after)) | {d + "/" for d in bd - ad}), "left": left, "out": list(out), "tv": tokens(text, wide) if tool in ("sort", "convert") else tokens([out], False, True), "one": list(struct.pack("<d", 1.0) if wide else struct.pack("<f", 1.0))})
        return rc

    def clear(self):
        """Removes everything the last run left."""
        for n, _ in self.ev[-1]["touched"]:
            if n.endswith("/"):
                shutil.rmtree(os.path.join(self.root, n), ignore_errors=True)
            elif os.path.exists(os.path.join(self.root, n)):
                self.gone(n)

    def close(self):
        self.ev.append({"e": "End"})
        shutil.rmtree(self.root, ignore_errors=True)
        shutil.rmtree(self.tmp, ignore_errors=True)
        return [json.dumps(e, separators=(",", ":")) for e in self.ev]


def cpu(pid):
    """Seconds a process of ours has computed."""
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return sum(map(int, f[11:15])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0


class Patience:
    """A run seems not to end: it has computed for a minute, or nothing for a while."""
    def __init__(self, pid, limit=60):
        self.pid, self.limit, self.t0, self.last, self.idle = pid, limit, time.time(), 0, 0

    def over(self, step):
        t, wall = cpu(self.pid), time.time() - self.t0
        self.idle = self.idle + step if t - self.last < .005 else 0
        self.last = t
        return wall >= self.limit and (t >= self.limit or self.idle >= 20 or wall >= 5 * self.limit)


def patient(p, limit=60):
    w = Patience(p.pid, limit)
    while True:
        try:
            return p.communicate(timeout=5)[0]
        except subprocess.TimeoutExpired:
            if w.over(5):
                raise


def play(c, s, steps):
    for m, a, kw in steps:
        getattr(s, m)(*a, **kw)
        if getattr(s, "late", False):       # a run that does not end
            s.close()
            return [json.dumps(e, separators=(",", ":")) for e in s.ev], True
    return s.close(), False


def record(n, one):
    """sessions 0..n-1; after some with runs that do not end, no more are started"""
    late = []

    def go(k):
        if len(late) >= 3:
            return None
        r, slow = one(k)
        if slow: late.append(k)
        return k, r
    with ThreadPoolExecutor(vf.NCPU) as ex:
        return [x for x in ex.map(go, range(n)) if x]


def run(c, cfg, progs, scripts, label):
    """scripts: list of (id, flavour, list of steps); a step is (method, args, kwargs)."""
    def one(k, tag):
        hid, fl, steps = scripts[k]
        s = Session(c, progs[fl], "%s-%s-%d" % (label, tag, k))
        return play(c, s, steps)
    todo = record(len(scripts), lambda k: one(k, "r"))
    for _, lines in todo:
        for x in lines:
            if '"e":"Run"' in x:
                c.cov["tool_runs"] = c.cov.get("tool_runs", 0) + 1
                c.cov["tool_failures"] = c.cov.get("tool_failures", 0) + ('"rc":1' in x)
    for k, lines in todo[:2] + todo[-1:]:
        c.samples.append({"session": scripts[k][0], "build": scripts[k][1], "steps": [str(s)[:160] for s in scripts[k][2][:6]]})
    vf.validate_histories(c, "TraceTools", todo, lambda k: one(k, "c")[0], label, cfg=cfg, describe=lambda k: {"session": scripts[k][0], "build": scripts[k][1], "steps": [str(s)[:2000] for s in scripts[k][2]]})
    c.cov["tool_sessions"] = c.cov.get("tool_sessions", 0) + len(scripts)
    c.say("%s: %d sessions, %d runs" % (label, len(scripts), c.cov.get("tool_runs", 0)))
