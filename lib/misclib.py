"""Builds the driver for block sizes, helpers, statistics and summaries."""
import vf, lib


def build(c):
    jobs = []
    for fl in ("asan", "opt"):
        jobs += [(c.path("m-common-%s.o" % fl), vf.REPO + "/src/common.cpp", lib.FLAV[fl][0] + ["-fopenmp"]),
                 (c.path("m-misc-%s.o" % fl), vf.DRV + "/misc.cpp", lib.FLAV[fl][0] + ["-fopenmp"])]
    c.build(jobs)
    res = {}
    for fl in ("asan", "opt"):
        c.link(c.path("misc-%s" % fl), [c.path("m-misc-%s.o" % fl), c.path("m-common-%s.o" % fl)], lib.FLAV[fl][1])
        res[fl + "-d64"] = (c.path("misc-%s" % fl), lib.FLAV[fl][2], 1 << 40)
    return res


def packs(name, lines, n=250):
    return [lib.Hist("%s-%d" % (name, k), 1, lines[k:k + n]) for k in range(0, len(lines), n)]


def run(c, hists, progs, label):
    lib.run(c, "TraceMisc.cfg", hists, progs, label, module="TraceMisc")
