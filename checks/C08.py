#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, iolib, ioscen


def check(c):
    progs = iolib.variants(c, [("asan", "f32"), ("asan", "d64"), ("asan", "f64"), ("asan", "d32"), ("opt", "f32")])
    iolib.run(c, "TraceIO_C08.cfg", [(n, p, ioscen.meaning(c.rng, ioscen.W(*p[2]), c.n(40, 800))) for n, p in progs.items()], "meaning")
    iolib.run(c, "TraceIO_C08.cfg", [(n, p, ioscen.huge(c.rng, ioscen.W(*p[2]), 1)) for n, p in progs.items() if n in c.n(("opt-f32",), ("opt-f32", "asan-d64"))], "huge")
    st = ioscen.model_cases(c, c.n("MC_FileFormats_quick.cfg", "MC_FileFormats_wide.cfg"), True)
    iolib.run(c, "TraceIO_C08.cfg", [(n, p, ioscen.model_histories(c.rng, list(st), c.n(1000, 100000))) for n, p in progs.items() if p[2] == (4, 4)], "states")


vf.main("C08", "model_checking", check)
