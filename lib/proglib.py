"""Builds and runs the measuring programs and reads what they report."""
import json, os, re, shutil, signal, struct, subprocess
from concurrent.futures import ThreadPoolExecutor
import vf, lib, toollib

# program -> source, matrix type, number of measurements
PROGS = {"csr": ("csr", "Csr<float,uint32_t>", 7), "csr2": ("csr", "Csr2<float,uint32_t>", 6), "cswr": ("cswr", "Cswr<float,uint32_t,uint8_t>", 6),
         "csbr": ("blocked", "Csbr<float,uint32_t>", 1), "csbr2": ("blocked", "Csbr2<float,uint32_t>", 2), "cgbr": ("blocked", "Cgbr<float,uint32_t,uint16_t>", 7),
         "cgbr2": ("blocked", "Cgbr2<float,uint32_t,uint16_t>", 6), "partition": ("blocked", "Cgbr<float,uint32_t,uint16_t>", 0),
         "bench": ("bench", None, 8), "pbench": ("pbench", None, 5)}


def build(c, flavours=("asan", "opt")):
    jobs = []
    for fl in flavours:
        cf = lib.FLAV["asan"][0] if fl == "asan" else ["-O2"]
        jobs += [(c.path("p-common-%s.o" % fl), vf.REPO + "/src/common.cpp", cf + ["-fopenmp"]), (c.path("p-mm_io-%s.o" % fl), vf.REPO + "/dep/mm_io/mm_io.c", cf)]
        for p, (src, mt, n) in PROGS.items():
            d = ["-DVALTYPE=float", "-DITERATIONS=%d" % n]
            d += ["-DMATRIXTYPE=" + mt, "-DITYPE=uint32_t"] if mt else ["-DINDEXTYPE=uint32_t", "-DSINDEXTYPE=uint16_t"]
            if p == "partition": d += ["-DPARTITION_DEBUG", "-DSITYPE=uint16_t"]
            jobs.append((c.path("p-%s-%s.o" % (p, fl)), vf.REPO + "/src/drivers/%s.cpp" % src, ["-fopenmp"] + cf + d))
        jobs.append((c.path("p-align-%s.o" % fl), vf.DRV + "/align.c", cf))
    c.build(jobs)
    pre = c.path("preload.so")
    c.run([vf.CXX, "-std=c++17", "-O1", "-w", "-shared", "-fPIC", vf.DRV + "/preload.cpp", "-o", pre, "-ldl"], check=True)
    for fl in flavours:
        for p in PROGS:
            c.link(c.path("prog-%s-%s" % (p, fl)), [c.path("p-%s-%s.o" % (p, fl)), c.path("p-common-%s.o" % fl), c.path("p-mm_io-%s.o" % fl), c.path("p-align-%s.o" % fl)], lib.FLAV[fl][1] + ["-Wl,--wrap=aligned_alloc"])
    return {fl: ({p: c.path("prog-%s-%s" % (p, fl)) for p in PROGS}, dict(lib.FLAV[fl][2], LD_PRELOAD=pre, OMP_WAIT_POLICY="passive")) for fl in flavours}


def report(out):
    """The numbers in what a program prints."""
    i = {"sets": []}

    def num(k, rx):
        m = re.search(rx, out)
        if m:
            i[k] = min(2000000002, int(m.group(1)))
    num("threads", r"Threads\s*:\s*(\d+)")
    num("beta", r"Beta = (\d+)")
    for a, b, rx in (("rows", "cols", r"(\d+) rows x (\d+) columns"), ("brows", "bcols", r"(\d+) block-rows x (\d+) block-columns"), ("nnz", "blocks", r"(\d+) non-zeros in (\d+) blocks"),
                     ("rows", "nnz", r"CSR matrix : (\d+) rows, (\d+) non-zeros"), ("groups", "width", r"rows in (\d+) groups of (\d+),"), ("rows", "nnz", r"Cswr matrix : (\d+) rows in .*, (\d+) non-zeros")):
        m = re.search(rx, out)
        if m:
            i[a], i[b] = int(m.group(1)), int(m.group(2))
    for k, rx in (("pnnz", r"([\d.]+)% non-zeros"), ("pblocks", r"([\d.]+)% non-zero blocks")):
        m = re.search(rx, out)
        if m:
            i[k] = round(float(m.group(1)) * 10000)
    for k, rx in (("kinds", r"Blocks : (\d+) COO, (\d+) CSR, (\d+) CSR \(parallel\), (\d+) dense"), ("knnz", r"Non-Zeros : (\d+) COO, (\d+) CSR, (\d+) CSR \(parallel\), (\d+) dense")):
        m = re.search(rx, out)
        if m:
            i[k] = [int(x) for x in m.groups()]
    if "alanced block-rows" in out:
        i["balanced"] = int("Balanced block-rows\n" in out)
        i["dump"] = [[int(a), int(b)] + [int(x) for x in t.split()] for a, b, t in re.findall(r"^(\d+),(\d+):\t(.*)$", out, re.M)]
    sets = []
    for m in re.finditer(r"^(\w+),(-?[\d.a-z]+),(-?[\d.a-z]+),(-?[\d.a-z]+),(-?[\d.a-z]+)$", out, re.M):
        sets.append((m.start(), {"m": m.group(1), "csv": 1, "tm": [-1] * 4, "fl": [whole(x) for x in m.groups()[1:]]}))
    for m in re.finditer(r"Execution time (\w+) \(best\): ", out):
        t, f = [], []
        for k in ("best", "median", "mean", "worst"):
            a = re.compile(r"Execution time %s \(%s\): (\S+)" % (m.group(1), k)).search(out, m.start())
            b = re.compile(r"MFLOP/s        %s \(%s\): (\S+)" % (m.group(1), k)).search(out, m.start())
            t.append(whole(a.group(1), 1000000) if a else -2)
            f.append(whole(b.group(1)) if b else -2)
        sets.append((m.start(), {"m": m.group(1), "csv": 0, "tm": t, "fl": f}))
    i["sets"] = [s for _, s in sorted(sets, key=lambda x: x[0])]
    return i


def whole(x, mul=1):
    try:
        return max(-3, min(2000000002, round(float(x) * mul)))
    except (ValueError, OverflowError):
        return -3


class Session(toollib.Session):
    def prog(self, name, args, workers=2, clock="100:4000:1"):
        for f in os.listdir(self.tmp):
            os.unlink(os.path.join(self.tmp, f))
        clk = os.path.join(self.tmp, "clock")
        env = dict(os.environ, **self.env)
        env.update(OMP_NUM_THREADS=str(workers), OMP_DYNAMIC="false", VF_CLOCK=clock + ":" + clk)
        p = subprocess.Popen([self.progs[name]] + list(args), cwd=self.root, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             preexec_fn=lambda: __import__("resource").setrlimit(4, (0, 0)))
        try:
            out = toollib.patient(p)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            rc = 124
            self.late = True
        toollib.sweep(p.pid)
        i = report(out.decode(errors="replace"))
        if name == "cswr" and len(args) == 2:
            i["asked"] = int(args[1])
        d = [int(x) for x in open(clk).read().split()] if os.path.exists(clk) else []
        n = PROGS[name][2]
        if len(d) < 2 * n: d = []       # the time does not come from that clock
        text = list(toollib.files(self.root).values())
        kind = "mtx" if args and args[0].endswith(".mtx") else "bin" if args and args[0].endswith(".bin") else "other"
        self.ev.append({"e": "Prog", "t": name, "a": list(args), "kind": kind, "rc": toollib.status(rc), "i": i, "w": workers, "n": n, "d": d,
                        "tv": toollib.tokens(text, False), "one": list(struct.pack("<f", 1.0))})
        return rc


def run(c, progs, scripts, label):
    def one(k, tag):
        hid, fl, steps = scripts[k]
        s = Session(c, progs[fl], "%s-%s-%d" % (label, tag, k))
        return toollib.play(c, s, steps)
    todo = toollib.record(len(scripts), lambda k: one(k, "r"))
    for _, lines in todo:
        for x in lines:
            if '"e":"Prog"' in x:
                c.cov["program_runs"] = c.cov.get("program_runs", 0) + 1
                c.cov["program_failures"] = c.cov.get("program_failures", 0) + ('"rc":1' in x)
    for k, lines in todo[:2]:
        c.samples.append({"session": scripts[k][0], "build": scripts[k][1], "steps": [str(s)[:160] for s in scripts[k][2][:6]]})
    vf.validate_histories(c, "TraceMisc", todo, lambda k: one(k, "c")[0], label, cfg="TraceMisc.cfg",
                          describe=lambda k: {"session": scripts[k][0], "build": scripts[k][1], "steps": [str(s)[:2000] for s in scripts[k][2]]})
    c.say("%s: %d sessions" % (label, len(scripts)))
