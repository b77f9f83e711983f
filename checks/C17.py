#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, misclib, proglib, progscen


def check(c):
    progs = proglib.build(c)
    proglib.run(c, progs, progscen.sessions(c, c.n(90, 1500)), "programs")
    calls = misclib.build(c)
    misclib.run(c, misclib.packs("calls", progscen.calls(c.rng, c.n(5000, 60000))), calls, "calls")


vf.main("C17", "model_checking", check)
