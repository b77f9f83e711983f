#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, toollib, toolscen


def check(c):
    progs = toollib.build(c)
    ts = [t for t in toollib.ALL if t != "pprint"]
    fl = ["asan", "opt"]
    m = toolscen.model(c, "MC_Tools_quick.cfg" if c.quick else "MC_Tools_wide.cfg", c.n(120, 3000), fl)
    toollib.run(c, "TraceTools_C14.cfg", progs, m, "model")
    toollib.run(c, "TraceTools_C14.cfg", progs, toolscen.contents(c.rng, c.n(40, 400) * len(ts), ts, fl), "contents")
    toollib.run(c, "TraceTools_C14.cfg", progs, toolscen.large(c.rng, ts * c.n(1, 6), fl, c.n(700, 1300)), "large")
    toollib.run(c, "TraceTools_C14.cfg", progs, toolscen.blocks(c.rng, ts, fl, c.n(4, 60)), "blocks")
    toollib.run(c, "TraceTools_C14.cfg", progs, toolscen.paths(c.rng, ts, fl), "paths")
    toollib.run(c, "TraceTools_C14.cfg", progs, toolscen.oversized(c.rng, ts, fl, c.n(14, 150)), "oversized")
    toollib.run(c, "TraceTools_C14.cfg", progs, toolscen.giants(c.rng, ts * c.n(1, 4), fl), "giants")


vf.main("C14", "model_checking", check)
