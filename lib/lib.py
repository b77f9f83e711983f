"""Runs scenarios of the library driver in several builds and validates what they
record against the specification TraceLib."""
import os, json, random
from concurrent.futures import ThreadPoolExecutor
import vf, gen

# value type, index type, short index type, largest in-block dimension
COMBOS = {
    "f32": ("float", "uint32_t", "uint16_t", 1 << 16),
    "d64": ("double", "uint64_t", "uint16_t", 1 << 16),
    "f8": ("float", "uint32_t", "uint8_t", 1 << 8),
    "d32": ("double", "uint32_t", "uint32_t", 1 << 31),
    "f64": ("float", "uint64_t", "uint32_t", 1 << 31),
    "d8": ("double", "uint64_t", "uint8_t", 1 << 8),
    "w64": ("float", "uint64_t", "uint64_t", 1 << 31),     # CGBR prefers CSR and dense blocks
}
FLAV = {
    "asan": (["-O1"] + vf.ASAN, ["-fopenmp"] + vf.ASAN, vf.ASAN_ENV),
    "opt": (["-O3", "-funroll-loops"], ["-fopenmp"], {}),
}


def variants(c, want, fields=True):
    """Builds the driver for (flavour, combo) pairs; returns name -> (program, env, limit)."""
    def build(with_fields):
        jobs, done = [], {}
        for fl in sorted({f for f, _ in want}):
            jobs.append((c.path("common-%s.o" % fl), vf.REPO + "/src/common.cpp", FLAV[fl][0] + ["-fopenmp"]))
        for fl, co in want:
            t, it, sit, lim = COMBOS[co]
            o = c.path("lib-%s-%s.o" % (fl, co))
            jobs.append((o, vf.DRV + "/lib.cpp", FLAV[fl][0] + ["-fopenmp", "-DVT=" + t, "-DVIT=" + it, "-DVSIT=" + sit] + (["-DVF_FIELDS"] if with_fields else [])))
        c.build(jobs)
        for fl, co in want:
            exe = c.path("lib-%s-%s" % (fl, co))
            c.link(exe, [c.path("lib-%s-%s.o" % (fl, co)), c.path("common-%s.o" % fl)], FLAV[fl][1])
            done[fl + "-" + co] = (exe, FLAV[fl][2], COMBOS[co][3])
        return done
    if fields:
        try:
            return build(True)
        except RuntimeError as e:
            c.say("recording internal arrays is not possible, using the public interface only:", str(e)[:300])
            c.cov["internal_arrays"] = "not recorded"
    return build(False)


class Hist:
    """One history: commands, number of workers, largest in-block dimension it needs, and
    what else it needs of a build: "double" values, "it64" indices, "opt"imised code."""
    def __init__(self, hid, workers, lines, maxdim=1, need=()):
        self.id, self.workers, self.lines, self.maxdim, self.need = hid, workers, lines, maxdim, tuple(need)
        self.inside = 0        # called from inside a parallel region (whose teams are nested: one worker)
        self.env = {}

    def fits(self, name, lim):
        fl, co = name.split("-")
        have = {fl, co, "double" if COMBOS[co][0] == "double" else "", "it64" if "64" in COMBOS[co][1] else "it32"}
        return self.maxdim <= lim and all(n in have for n in self.need)

    def text(self):
        return "BEGIN %s %d %d\n%s\n" % (self.id, self.workers, self.inside, "\n".join(self.lines))


def execute(c, exe, env, hists, tag, timeout=600):
    sc, out = c.path("sc-%s.txt" % tag), c.path("out-%s.ndjson" % tag)
    with open(sc, "w") as f:
        f.write("".join(h.text() for h in hists))
    e = {"OMP_WAIT_POLICY": "passive", "OMP_DYNAMIC": "false", "OMP_NESTED": "false"}
    e.update(env)
    rc, o, er = c.run([exe, sc, out], timeout=timeout, env=e)
    if rc != 0:
        raise RuntimeError("driver failed: rc %d %s" % (rc, er.decode(errors="replace")[-1500:]))
    res = vf.read_histories(out)
    if len(res) != len(hists) and not vf.given_up(res):
        raise RuntimeError("driver recorded %d of %d histories" % (len(res), len(hists)))
    os.unlink(sc); os.unlink(out)
    return res


def by_file(h):
    """Some conversions to a blocked format happen by way of a blocked file."""
    rng = random.Random(h.id)
    def other(x):
        t = x.split(" ", 3)
        return "RBL" + x[3:] if t[0] == "CVT" and t[2] in ("csbr", "csbru", "csbr2", "cgbr") and rng.random() < .25 else x
    h.lines = [other(x) for x in h.lines]


def run(c, cfg, hists, progs, label, module="TraceLib"):
    """Records every history in every build it fits in, validates distinct traces."""
    tasks = []
    for i, h in enumerate(hists):
        # teams smaller than asked for: nested ones, and those cut by the thread limit
        if i % 7 == 5: h.inside = 1
        if i % 7 == 6: h.env = {"OMP_THREAD_LIMIT": "2"}
        by_file(h)
    for name, (exe, env, lim) in progs.items():
        hs = [h for h in hists if h.fits(name, lim)]
        k = max(1, min(vf.NCPU, len(hs) // 20))
        for i in range(k):
            for j, lm in enumerate(({}, {"OMP_THREAD_LIMIT": "2"})):
                part = [h for h in hs[i::k] if h.env == lm]
                if part:
                    tasks.append((name, exe, dict(env, **lm), part, "%s-%s-%d-%d" % (label, name, i, j)))
    # the builds without sanitizer first for a fast answer
    with ThreadPoolExecutor(vf.NCPU) as ex:
        recs = list(ex.map(lambda t: execute(c, t[1], t[2], t[3], t[4]), tasks))
    seen, todo, total = {}, [], 0
    for t, rec in zip(tasks, recs):
        for h, lines in zip(t[3], rec):
            total += 1
            key = (h.id, h.workers, tuple(lines[1:]))
            if key in seen:
                continue
            seen[key] = 1
            todo.append(((t[0], h), lines))
    c.evals_runs = getattr(c, "evals_runs", 0) + total
    c.cov["recorded_histories"] = c.cov.get("recorded_histories", 0) + total
    c.cov["distinct_histories"] = c.cov.get("distinct_histories", 0) + len(todo)
    for h in hists[:2] + hists[-1:]:
        c.samples.append({"history": h.id, "workers": h.workers, "commands": [x[:160] for x in h.lines[:6]]})

    def rerun(key):
        name, h = key
        exe, env, lim = progs[name]
        return execute(c, exe, dict(env, **h.env), [h], "confirm-" + label)[0]
    vf.validate_histories(c, module, todo, rerun, label, cfg=cfg,
                          describe=lambda key: {"build": key[0], "environment": key[1].env, "scenario": key[1].text().split("\n")})
    c.say("%s: %d histories recorded, %d distinct traces validated" % (label, total, len(todo)))
