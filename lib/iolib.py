"""Builds and runs the driver of the file layer, validates its traces with TraceIO."""
import os, shutil
from concurrent.futures import ThreadPoolExecutor
import vf, lib

WIDTH = {"f32": (4, 4), "d64": (8, 8), "d32": (4, 8), "f64": (8, 4)}


def variants(c, want):
    jobs, res = [], {}
    for fl in sorted({f for f, _ in want}):
        cf = lib.FLAV[fl][0]
        jobs += [(c.path("common-%s.o" % fl), vf.REPO + "/src/common.cpp", cf + ["-fopenmp"]),
                 (c.path("mm_io-%s.o" % fl), vf.REPO + "/dep/mm_io/mm_io.c", cf), (c.path("shim-%s.o" % fl), vf.DRV + "/shim.cpp", cf)]
    for fl, co in want:
        t, it, sit = lib.COMBOS[co][0], lib.COMBOS[co][1], "uint16_t"
        jobs.append((c.path("io-%s-%s.o" % (fl, co)), vf.DRV + "/io.cpp", lib.FLAV[fl][0] + ["-fopenmp", "-DVT=" + t, "-DVIT=" + it, "-DVSIT=" + sit]))
    c.build(jobs)
    for fl, co in want:
        exe = c.path("io-%s-%s" % (fl, co))
        c.link(exe, [c.path("%s-%s.o" % (x, fl)) for x in ("common", "mm_io", "shim")] + [c.path("io-%s-%s.o" % (fl, co))], lib.FLAV[fl][1] + ["-Wl,--wrap=fopen"])
        res[fl + "-" + co] = (exe, lib.FLAV[fl][2], WIDTH[co])
    return res


def execute(c, exe, env, hists, tag):
    sc, out, dr = c.path("sc-%s.txt" % tag), c.path("out-%s.ndjson" % tag), c.path("dir-" + tag)
    os.makedirs(dr)
    with open(sc, "w") as f:
        f.write("".join("BEGIN %s\n%s\n" % (h[0], "\n".join(h[1])) for h in hists))
    rc, o, er = c.run([exe, sc, out, dr], timeout=600, env=env)
    shutil.rmtree(dr, ignore_errors=True)
    if rc:
        raise RuntimeError("driver failed: rc %d %s" % (rc, er.decode(errors="replace")[-1500:]))
    res = vf.read_histories(out)
    if len(res) != len(hists) and not vf.given_up(res):
        raise RuntimeError("driver recorded %d of %d histories" % (len(res), len(hists)))
    os.unlink(sc); os.unlink(out)
    return res


def run(c, cfg, jobs, label):
    """jobs: list of (build name, program entry, histories)"""
    tasks = []
    for name, (exe, env, _), hs in jobs:
        k = max(1, min(vf.NCPU, len(hs) // 6))
        for i in range(k):
            if hs[i::k]:
                tasks.append((name, exe, env, hs[i::k], "%s-%s-%d" % (label, name, i)))
    with ThreadPoolExecutor(vf.NCPU) as ex:
        recs = list(ex.map(lambda t: execute(c, *t[1:]), tasks))
    todo, byname = [], {}
    for t, rec in zip(tasks, recs):
        byname[t[0]] = (t[1], t[2])
        for h, lines in zip(t[3], rec):
            todo.append(((t[0], h), lines))
            for x in lines:
                if '"e":"Read"' in x:
                    c.cov["reads"] = c.cov.get("reads", 0) + 1
                    c.cov["reads_refused"] = c.cov.get("reads_refused", 0) + ('"ok":0' in x)
                elif '"e":"Write"' in x:
                    c.cov["writes"] = c.cov.get("writes", 0) + 1
                    c.cov["writes_hindered"] = c.cov.get("writes_hindered", 0) + ('"hindered":1' in x)
                    c.cov["writes_failed"] = c.cov.get("writes_failed", 0) + ('"rc":1' in x)
    for (nm, h), lines in todo[:2] + todo[-2:]:
        c.samples.append({"build": nm, "history": h[0], "commands": [x[:160] for x in h[1][:5]]})

    def rerun(key):
        return execute(c, byname[key[0]][0], byname[key[0]][1], [key[1]], "confirm-" + label)[0]
    vf.validate_histories(c, "TraceIO", todo, rerun, label, cfg=cfg, describe=lambda k: {"build": k[0], "history": k[1][0], "commands": k[1][1][:200]})
    c.cov["recorded_histories"] = c.cov.get("recorded_histories", 0) + len(todo)
    c.say("%s: %d histories, %d events" % (label, len(todo), sum(len(l) for _, l in todo)))
