"""The library driver under a scheduler of our own instead of the OpenMP runtime: every
switch between workers is decided by a schedule, every memory access in a parallel
region is recorded.  What the calls return goes to TraceLib, what the workers did goes
to TraceOmp."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
import vf, lib, gen
from gen import cmd
from lib import Hist

WRAP = "-Wl," + ",".join("--wrap=" + s for s in ("malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign",
                                                 "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"))


def variants(c, combos):
    """name -> (program, env, limit); an empty dictionary if the code cannot be built this way"""
    jobs = [(c.path("omp.o"), vf.DRV + "/omp.cpp", ["-O2"]), (c.path("common-s.o"), vf.REPO + "/src/common.cpp", ["-O1", "-fopenmp", "-fsanitize=thread"])]
    for co in combos:
        t, it, sit, lim = lib.COMBOS[co]
        jobs.append((c.path("lib-s-%s.o" % co), vf.DRV + "/lib.cpp", ["-O1", "-fopenmp", "-fsanitize=thread", "-DVF_SCHED", "-DVT=" + t, "-DVIT=" + it, "-DVSIT=" + sit]))
    c.build(jobs)
    res = {}
    for co in combos:
        exe = c.path("lib-s-" + co)
        try:
            c.link(exe, [c.path("lib-s-%s.o" % co), c.path("common-s.o"), c.path("omp.o")], [WRAP])
        except RuntimeError as e:
            c.say("cannot be scheduled (the code uses more of OpenMP than drivers/omp.cpp offers), results only:", str(e)[-400:])
            c.cov["schedules"] = "not controlled"
            return {}
        res["sched-" + co] = (exe, {"VF_SCHED_BUILD": "1"}, lib.COMBOS[co][3])
    return res


def split(lines):
    """events of the calls, and events of the workers"""
    a, b = [], []
    for x in lines:
        if x.startswith('{"e":"Omp'):
            if not x.startswith('{"e":"OmpScript'): b.append(x)
        elif x.startswith('{"e":"Begin"'): a.append(x); b.append(x)
        else: a.append(x)
    return a, b


def run(c, cfg, hists, progs, label):
    """Records every history, validates its calls and its schedule."""
    tasks = []
    for name, (exe, env, lim) in progs.items():
        hs = [h for h in hists if h.fits(name, lim)]
        k = max(1, min(vf.NCPU, len(hs) // 4))
        for i in range(k):
            if hs[i::k]: tasks.append((name, exe, env, hs[i::k], "%s-%s-%d" % (label, name, i)))
    with ThreadPoolExecutor(vf.NCPU) as ex:
        recs = list(ex.map(lambda t: lib.execute(c, t[1], t[2], t[3], t[4]), tasks))
    calls, works, seen = [], [], set()
    hit = miss = 0
    for t, rec in zip(tasks, recs):
        for h, lines in zip(t[3], rec):
            a, b = split(lines)
            for x in lines:
                if x.startswith('{"e":"OmpScript'):
                    d = json.loads(x); hit += d["hit"]; miss += d["miss"]
            ka = (h.id, "c", tuple(a[1:])); kb = ("w", tuple(b[1:]))
            if ka not in seen: seen.add(ka); calls.append(((t[0], h), a))
            if kb not in seen and len(b) > 1: seen.add(kb); works.append(((t[0], h), b))
    c.cov["recorded_histories"] = c.cov.get("recorded_histories", 0) + sum(len(r) for r in recs)
    c.cov["parallel_regions"] = c.cov.get("parallel_regions", 0) + sum(1 for _, b in works for x in b if x.startswith('{"e":"OmpFork'))
    c.cov["tasks_run"] = c.cov.get("tasks_run", 0) + sum(1 for _, b in works for x in b if x.startswith('{"e":"OmpStart'))
    if hit + miss: c.cov["schedule_steps"] = {"followed": hit, "not_possible": miss}
    for h in hists[:2] + hists[-1:]:
        c.samples.append({"history": h.id, "workers": h.workers, "commands": [x[:160] for x in h.lines[:6]]})

    def rerun(which):
        def f(key):
            name, h = key
            exe, env, lim = progs[name]
            return split(lib.execute(c, exe, env, [h], "confirm-" + label)[0])[which]
        return f
    say = lambda key: {"build": key[0], "scenario": key[1].text().split("\n")}
    vf.validate_histories(c, "TraceOmp", works, rerun(1), label + "-schedule", cfg="TraceOmp.cfg", describe=say)
    vf.validate_histories(c, "TraceLib", calls, rerun(0), label, cfg=cfg, describe=say)
    c.say("%s: %d histories, %d distinct recordings of workers validated" % (label, sum(len(r) for r in recs), len(works)))


def sched(rng, preempt=True):
    """a line that says how the next regions are scheduled: mode, seed, memory accesses
    between switches (0: none), percentage of tasks run at once, chunks in any order"""
    return cmd("SCHED", rng.choice([0, 0, 0, 1, 2, 3, 4]), rng.randrange(1, 1 << 30), rng.choice([0, 2, 5, 20] if preempt is True else preempt or [0]), rng.choice([0, 0, 0, 30]), rng.choice([0, 1]))


def stir(rng, hists, workers=(2, 2, 3, 4, 5, 8), times=1, preempt=True):
    """gives every product and sort of the histories a schedule of its own"""
    for h in hists:
        out = []
        for x in h.lines:
            k = x.split(" ", 1)[0]
            if k in ("MUL", "SMUL"):
                for _ in range(times): out += [sched(rng, preempt), x]
            elif k in ("SORT", "CVT", "PIDX", "PMAT", "PSRC", "EIDX", "EMAT", "INV"): out += [sched(rng, preempt), x]
            else: out.append(x)
        h.lines = out
        h.workers = rng.choice(workers)
    return hists


# ------------------------------------------------- behaviours of SpmvTasks
TEAMS = [(2, [2]), (2, [3]), (2, [2, 1]), (3, [3]), (3, [4]), (3, [5]), (3, [2, 2]), (3, [1, 3]), (3, [4, 1]), (4, [4]), (4, [7]), (4, [3, 3]),
         (4, [5, 2]), (4, [1, 4, 1]), (8, [9]), (8, [4, 4, 4]), (2, [1, 1, 1]), (5, [6, 2])]


def behaviours(c, per):
    """schedules from TLC's simulation of SpmvTasks, as histories for the code: block-rows
    with as many equally heavy blocks as the model's have chunks"""
    rng = c.rng
    jobs = [(w, rows, rng.randrange(1 << 30)) for w, rows in TEAMS]

    def one(j):
        w, rows, seed = j
        f = c.path("team-%d-%s.json" % (w, "_".join(map(str, rows))))
        json.dump({"w": w, "rows": rows}, open(f, "w"))
        r = c.tlc("MC_SpmvTasks", "MC_SpmvTasks_sim.cfg", env={"VF_TEAM": f}, extra=["-simulate", "num=%d" % per, "-depth", "2000", "-seed", str(seed)])
        if r["rc"] != 0: raise RuntimeError("simulation failed: " + r["out"][-2000:])
        return [(w, rows, json.loads(m)) for m in re.findall(r'"SCHEDULE",\s*"(\[.*?\])"\s*>>', r["out"])]
    with ThreadPoolExecutor(vf.NCPU) as ex:
        res = [x for l in ex.map(one, jobs) for x in l]
    hs, by = [], {}
    for w, rows, moves in res: by.setdefault((w, tuple(rows)), []).append(moves)
    for (w, rows), ms in by.items():
        for n in range(0, len(ms), 6):
            bs, nb, es = rng.choice([1, 2, 3]), max(rows), []
            per_block = rng.choice([1, 2, 3])
            for R, k in enumerate(rows):
                for B in sorted(rng.sample(range(nb), k)):
                    es += [(R * bs + rng.randrange(bs), B * bs + rng.randrange(bs), gen.value(rng)) for _ in range(per_block)]
            rng.shuffle(es)
            r, cc = len(rows) * bs, nb * bs
            lines = [gen.vec("x", gen.vecx(rng, cc)), gen.vec("y", gen.vecy(rng, r)), gen.src("s", 3, r, cc, es),
                     cmd("CVT", "m", "cgbr2", "s", gen.blk_o([bs * q for q in range(len(rows) + 1)], [bs * q for q in range(nb + 1)]), rng.choice([0, 1, 2, 3, 5]))]
            for mv in ms[n:n + 6]:
                lines += [cmd("SCHED", 0, 1, 0, 0, 0, *["%d:%d" % (k - 1, t) for k, t in mv]), "MUL m x y p", "SCHEDEND"]
            hs.append(Hist("b%d_%s_%d" % (w, "_".join(map(str, rows)), n), w, lines, bs))
    c.cov["simulated_behaviours"] = len(res)
    return hs
