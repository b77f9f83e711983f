#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, lib, scen, toollib, toolscen


def check(c):
    progs = lib.variants(c, [("asan", "f32"), ("opt", "f32"), ("asan", "d64")])
    lib.run(c, "TraceLib_C18.cfg", scen.listings(c, c.n(150, 3000)), progs, "listings")
    lib.run(c, "TraceLib_C18.cfg", scen.summaries(c, c.n(48, 480)), progs, "summaries")
    lib.run(c, "TraceLib_C18.cfg", scen.bulks(c, ["csr", "csr2", "cswr", "csbr", "csbru", "csbr2", "cgbr", "cgbr2"]), progs, "bulks")
    tools = toollib.build(c, only=["pprint"])
    toollib.run(c, "TraceTools_C18.cfg", tools, toolscen.prints(c.rng, c.n(150, 3000), ["asan", "opt"]), "files")


vf.main("C18", "model_checking", check)
