#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, iolib, ioscen


def check(c):
    progs = iolib.variants(c, [("asan", "f32"), ("asan", "d64"), ("asan", "f64"), ("asan", "d32"), ("opt", "f32")])
    iolib.run(c, "TraceIO_C09.cfg", [(n, p, ioscen.roundtrip(c.rng, ioscen.W(*p[2]), c.n(40, 800))) for n, p in progs.items()], "round")
    iolib.run(c, "TraceIO_C09.cfg", [(n, p, ioscen.huge_trips(c.rng, ioscen.W(*p[2]), 1)) for n, p in progs.items() if n in c.n(("opt-f32",), ("opt-f32", "asan-d64"))], "huge")


vf.main("C09", "model_checking", check)
