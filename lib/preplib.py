"""Runs several prepare processes under a scheduler: every operation on a file waits for
its turn.  Records the interleaving for TracePrepare."""
import os, json, select, shutil, socket, subprocess, resource
from concurrent.futures import ThreadPoolExecutor
import vf, toollib, toolscen, ioscen

W4 = ioscen.W(4, 4)
LATE = []       # runs that had to be ended


class Proc:
    def __init__(self, k, prog, env, root, tmp, args, fault):
        self.k, self.args, self.fault = k, args, fault
        a, b = socket.socketpair()
        e = dict(os.environ, **env)
        e.update(VF_TMP=tmp, TMPDIR=tmp, VF_ROOT=root, VF_GATE=str(b.fileno()), OMP_NUM_THREADS="1")
        if fault: e["VF_FAULT"] = fault
        self.p = subprocess.Popen([prog] + args, cwd=root, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, pass_fds=[b.fileno()],
                                  preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
        b.close()
        self.s, self.buf, self.wait, self.done, self.ops = a, b"", None, False, 0

    def line(self):
        w = toollib.Patience(self.p.pid)
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.s], [], [], 5)
            if not r and not w.over(5):
                continue
            if not r:
                self.p.kill()
                LATE.append(self.k)
                return None
            d = self.s.recv(65536)
            if not d: return None
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode(errors="replace")

    def grant(self):
        """Lets the waiting operation happen; returns the reports up to the next question."""
        if self.wait is not None:
            self.wait = None
            self.s.send(b"g")
            self.ops += 1
        rep = []
        while True:
            if self.ops == 200000:      # it does not end
                self.p.kill(); LATE.append(self.k)
            l = self.line()
            if l is None:
                self.done = True
                self.s.close()
                try:
                    self.rc = self.p.wait(timeout=60)
                except subprocess.TimeoutExpired:
                    self.p.kill(); self.p.wait(); self.rc = 124
                toollib.sweep(self.p.pid)
                return rep
            w = l.split(" ", 2)
            if w[0] == "ask":
                self.wait = l
                return rep
            rep.append(l.split(" ", 4))


def session(c, prog, env, spec, tag):
    """spec: [files, runs (args, fault, hindered), schedule]; returns the recorded lines."""
    fs, runs, sched = spec
    root, tmp = c.path("pd-" + tag), c.path("px-" + tag)
    for d in (root, tmp):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    ev = [{"e": "Begin"}]
    for n, b in fs:
        with open(os.path.join(root, n), "wb") as f:
            f.write(b)
        ev.append({"e": "File", "n": n, "b": list(b)})
    ps = {}

    def rel(p):
        p = os.path.normpath(p)
        if p.startswith(tmp): return "/tmp" + p[len(tmp):]
        if p.startswith(root): return p[len(root) + 1:]
        return p

    def step(k):
        if k not in ps:        # its first turn: it starts, and stops in front of its first operation
            args, fault, hindered = runs[k - 1]
            ev.append({"e": "Start", "p": k, "a": args})
            ps[k] = Proc(k, prog, env, root, tmp, args, fault)
        p = ps[k]
        if p.done: return
        for r in p.grant():
            ev.append({"e": "Op", "p": p.k, "op": r[1], "ok": int(r[2]), "was": int(r[3]), "x": rel(r[4])})
        if p.done:
            pre = p.args[-1] + "." if p.args else "?"
            t = [[n, list(b)] for n, b in sorted(toollib.files(root).items()) if n.startswith(pre)]
            ev.append({"e": "Exit", "p": p.k, "rc": toollib.status(p.rc), "hindered": int(bool(runs[p.k - 1][2])), "touched": t})
    for k, n in sched:
        for _ in range(n):
            if k <= len(runs): step(k)
    k = 0
    while len(ps) < len(runs) or any(not p.done for p in ps.values()):
        k = k % len(runs) + 1
        step(k)
    now = toollib.files(root)
    ev.append({"e": "End", "left": sorted(os.listdir(tmp)), "names": sorted(now), "same": int(all(now.get(n) == b for n, b in fs)), "ops": [ps[k].ops for k in sorted(ps)]})
    shutil.rmtree(root, ignore_errors=True)
    shutil.rmtree(tmp, ignore_errors=True)
    return [json.dumps(e, separators=(",", ":")) for e in ev]


def inputs(rng, k, nruns):
    """Input files and the runs on them; runs differ in what they read or share it."""
    fs, runs = [], []
    for r in range(1, nruns + 1):
        share = r > 1 and rng.random() < .3
        if not share:
            z = toolscen.sizes(rng)
            m = sum(z)
            es = toolscen.mat(rng, m, m, rng.choice([1, 3, 8, 12]), W4)
            a, b, v = W4.three(es)
            ns = [x + str(r) for x in ("rows", "cols", "vals", "perm", "sizes")]
            fs += list(zip(ns, (a, b, v, W4.i(*toolscen.perm(rng, m)), W4.i(*z))))
        runs.append([ns + ["out%d" % r], None, False])
    return fs, runs


def trouble(rng, fs, runs):
    """Something is wrong for some of the runs."""
    fs = list(fs)
    for r in runs:
        x = rng.random()
        if x < .35: continue
        if x < .6:
            q = rng.randrange(5)
            r[0] = r[0][:q] + ["missing"] + r[0][q + 1:]
        elif x < .75:
            n = r[0][rng.randrange(5)]
            if n not in dict(fs): continue
            nm = "cut-" + n
            b = dict(fs)[n]
            fs = [f for f in fs if f[0] != nm] + [(nm, b[:max(0, len(b) - rng.choice([1, 4, 5]))])]
            r[0] = [nm if y == n else y for y in r[0]]
        else:
            o = rng.choice(["/rows", "/cols", r[0][-1] + ".row", r[0][-1] + ".block", r[0][-1] + ".col"])
            r[1] = o + ":" + rng.choice(["open:0", "full:0", "full:5", "close:0"])
            r[2] = True
    return fs, runs


def check(c, prog, env, specs, label):
    with ThreadPoolExecutor(vf.NCPU) as ex:
        recs = list(ex.map(lambda k: (k, session(c, prog, env, specs[k], "%s-%d" % (label, k))) if len(LATE) < 3 else None, range(len(specs))))
    todo = [x for x in recs if x]
    for k, lines in todo[:2]:
        c.samples.append({"runs": [r[0] for r in specs[k][1]], "schedule": str(specs[k][2])[:200], "operations": json.loads(lines[-1])["ops"]})
    c.cov["interleavings"] = c.cov.get("interleavings", 0) + len(specs)
    c.cov["file_operations"] = c.cov.get("file_operations", 0) + sum('"e":"Op"' in x for _, l in todo for x in l)
    vf.validate_histories(c, "TracePrepare", todo, lambda k: session(c, prog, env, specs[k], "confirm"), label,
                          describe=lambda k: {"files": {n: b.hex() for n, b in specs[k][0]}, "runs": specs[k][1], "schedule": specs[k][2]})
    c.say("%s: %d interleavings" % (label, len(specs)))


def schedules(c, cfg, num, depth):
    """Behaviours of Prepare.tla as sequences of turns."""
    import glob, re
    f = c.path("beh-" + cfg.replace(".cfg", ""))
    c.tlc("Prepare", cfg, extra=["-simulate", "num=%d,file=%s" % (num, f), "-depth", str(depth), "-seed", str(c.seed)], timeout=300)
    res = []
    for b in sorted(glob.glob(f + "*")):
        ats = [tuple(map(int, re.findall(r"\d+", x))) for x in re.findall(r"/\\ at = (<<[^>]*>>)", open(b).read())]
        os.unlink(b)
        s = []
        for p, q in zip(ats, ats[1:]):
            for i, (x, y) in enumerate(zip(p, q)):
                if x != y: s.append((i + 1, 1))
        if s: res.append(s)
    return res
