#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, misclib, tlaval

LIM = {"u32": 1 << 32, "i32": 1 << 31, "u64": (1 << 63) + 1, "i64": 1 << 62}


def dims(p):
    """numbers whose logarithm, rounded up, is p"""
    r = {1 << p}
    if p >= 1:
        r |= {(1 << (p - 1)) + 1, (1 << p) - 1 if p >= 2 else 2}
    return sorted(r)


def picks(c, states):
    """The first states of behaviours of the model, as calls."""
    out = []
    for s in states:
        ms, ns = dims(s["p"]), dims(s["q"])
        e, exact = s["prod"]["e"], s["prod"]["exact"]
        for m in ms:
            for n in ns:
                if (m * n == 1 << e) if exact else (1 << e) < m * n < (1 << (e + 1)):
                    its = [t for t in LIM if m < LIM[t] and n < LIM[t]]
                    out.append("PICK %s %d %d %d %d" % (c.rng.choice(its), m, n, s["val"], s["w"]))
    return sorted(set(out))


def more(c, n):
    out = []
    for _ in range(n):
        it = c.rng.choice(list(LIM))
        top = LIM[it].bit_length() - 1
        def d():
            p = c.rng.randint(0, top)
            v = c.rng.choice([1 << p, (1 << p) - 1, (1 << p) + 1, c.rng.getrandbits(p) + 1, 3 << max(0, p - 2), c.rng.randint(1, 300)])
            return min(max(v, 1), LIM[it] - 1)
        m, k = d(), d()
        if c.rng.random() < 0.4: k = m
        out.append("PICK %s %d %d %d %d" % (it, m, k, c.rng.choice([1, 2, 4, 4, 4, 8, 8, 12, 16]), c.rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 12, 16, 31, 32, 33, 64, 100, 256, 1000, 4096])))
    return out


def helpers(c, n):
    vs = {0, 1, 2, 3}
    for p in range(65):
        for d in (-2, -1, 0, 1, 2):
            vs.add((1 << p) + d)
        for _ in range(n):
            vs.add(c.rng.getrandbits(p) if p else 0)
            vs.add((1 << p) + (1 << c.rng.randint(0, max(0, p))))
    vs = sorted(v for v in vs if 0 <= v < 1 << 64)
    out = ["HELP np2 %d" % v for v in vs if 1 <= v <= 1 << 63]
    for k in ("u64", "i64"):
        out += ["HELP %s %d" % (k, v) for v in vs]
    for k in ("u32", "i32"):
        out += ["HELP %s %d" % (k, v) for v in vs if v < 1 << 32]
    return out


def check(c):
    c.mc("MC_BlockSize", "MC_BlockSize_live.cfg")
    c.mc("MC_BlockSize", "MC_BlockSize_quick.cfg")
    if not c.quick:
        c.mc("MC_BlockSize", "MC_BlockSize_wide.cfg", timeout=1200)
    dump = c.path("picks.dump")
    r = c.tlc("MC_BlockSize", "MC_BlockSize_picks.cfg", workers=vf.NCPU, extra=["-dump", dump], mem="4g")
    if not r["ok"]:
        raise RuntimeError(r["out"][-2000:])
    states = [s for s in tlaval.states(dump) if s["pc"] == "start"]
    calls = picks(c, states)
    if c.quick:
        calls = c.rng.sample(calls, min(len(calls), 14000))
    c.cov["calls_from_model"] = len(calls)
    progs = misclib.build(c)
    misclib.run(c, misclib.packs("model", calls), progs, "model")
    misclib.run(c, misclib.packs("pick", more(c, c.n(12000, 200000))), progs, "pick")
    misclib.run(c, misclib.packs("help", helpers(c, c.n(12, 200))), progs, "help")


vf.main("C06", "model_checking", check)
