#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, iolib, ioscen, toollib, toolscen


def check(c):
    progs = iolib.variants(c, [("asan", "f32"), ("asan", "d64")])
    iolib.run(c, "TraceIO_C10.cfg", [(n, p, ioscen.damage(c.rng, ioscen.W(*p[2]), c.n(12, 150))) for n, p in progs.items()], "damage")
    st = ioscen.model_cases(c, c.n("MC_FileFormats_quick.cfg", "MC_FileFormats_wide.cfg"), False)
    iolib.run(c, "TraceIO_C10.cfg", [(n, p, ioscen.model_histories(c.rng, list(st), c.n(6000, 100000))) for n, p in progs.items() if p[2] == (4, 4)], "states")
    tp = toollib.build(c)
    toollib.run(c, "TraceTools_C10.cfg", tp, toolscen.damage(c.rng, c.n(40, 400), toollib.ALL, ["asan", "asan", "opt"], c.n(3, 12)), "tools")
    toollib.run(c, "TraceTools_C10.cfg", tp, toolscen.long_damage(c.rng, ["opt", "asan"]), "long")


vf.main("C10", "model_checking", check)
