"""Scenarios for the library driver."""
import bisect, re
import gen
from gen import cmd
from lib import Hist

FLAT = ["coo1", "coo2", "coo3", "cooI", "cooE", "csr", "csr2", "crcsr", "cswr", "cswr8", "dense"]
ARRAYS = ["csra", "csrs", "csrx", "csry", "csr2a", "csr2s", "csr2x", "csr2y", "crcsra", "crcsrs", "cswra", "cswrs", "densea", "denses"]
FLAT += ARRAYS
SINGLE = ["bcoo", "bcoo2", "bcsr", "bcsru", "ecoo", "ecsr", "ecsrp", "eden", "edenp", "edef"]
BLOCKED = ["csbr", "csbru", "csbr2", "cgbr", "cgbr2", "cgbr2b"]
SERIAL = {"csr", "csr2", "crcsr", "cgbr", "dense", "bcsr", "bcsru"} | {f for f in ARRAYS if not f.startswith("cswr")}
DENSE = {"dense", "densea", "denses", "eden", "edenp"}
ONLY3 = {"csbr2", "cgbr", "cgbr2", "cgbr2b"}
CONSUMES3 = {"cgbr", "cgbr2", "cgbr2b"}


def blocking(rng, r, c, fmt, limit, most=6):
    """parameters of a blocked conversion, and its largest block dimension"""
    if rng.random() < .45:
        br, bc = gen.constsize(rng, r, limit), gen.constsize(rng, c, limit)
        return gen.blk_c(br, bc), max(gen.constmax(r, br), gen.constmax(c, bc))
    ro, co = gen.offsets(rng, r, most, limit), gen.offsets(rng, c, most, limit)
    p = gen.blk_o(ro, co)
    if fmt in ("cgbr2", "cgbr2b"):
        p += " %d" % rng.choice([0, 1, 2, 3, 4, 5, 5, 5])
    return p, max(gen.blkmax(ro), gen.blkmax(co))


def wide(rng, r, f):
    w = rng.choice([0, 1, 2, 3, 4, 8, max(1, r // 2), r, r + 1, 255, 256, 32])
    if f == "cswr8": w = min(w, 256)
    return w


def convert(rng, m, f, s, r, c, limit=1 << 16, most=6):
    """command line and largest in-block dimension"""
    if f in BLOCKED:
        p, d = blocking(rng, r, c, f, limit, most)
        if f == "csbr2" or f in ("csbr", "csbru"): d = 1
        return cmd("CVT", m, f, s, p), d
    if f.startswith("cswr"):
        w = wide(rng, r, f)
        return cmd("CVT", m, f, s, w), 1       # a width that the short index type cannot address is cut
    if f in SINGLE:
        return cmd("CVT", m, f, s), max(r, c)
    return cmd("CVT", m, f, s), 1


def formats(c, n, dump, mul, fmts=None, sizes=((8, 24, .55), (24, 90, .3), (90, 300, .12), (400, 1500, .03)), dense_limit=40000, most=6):
    """n histories: one source, several conversions, each looked into and multiplied"""
    rng = c.rng
    hs = []
    for i in range(n):
        t, acc = rng.random(), 0
        for hi, nn, pr in sizes:
            acc += pr
            if t < acc: break
        r, cc, es = gen.matrix(rng, hi, nn) if i % 6 != 1 else gen.thick(rng)
        # a part of them with values that need all digits of a float, or more than that
        bits = 31 if i % 8 == 3 else 24 if i % 8 == 6 else "odd" if i % 8 == 5 and mul else 0
        hs.append(history(rng, "g%d" % i, r, cc, es, dump, mul, fmts, dense_limit, most, bits=bits))
    return hs


def history(rng, hid, r, cc, es, dump, mul, fmts=None, dense_limit=40000, most=6, workers=None, bits=0):
    lines, mx = [], 1
    k = rng.choice([2, 3, 3])
    x, y = gen.vecx(rng, cc), gen.vecy(rng, r)
    if bits == "odd":
        es, y = gen.odd(rng, es, y)
        mul = mul and "once"
        bits = 0
    if bits:
        es, y = gen.stretch(rng, r, es, bits)
        x = gen.smallx(rng, cc)
        mul = mul and "once"
    lines.append(gen.src("s", k, r, cc, es))
    if mul:
        lines += [gen.vec("x", x), gen.vec("y", y)]
        lines.append(cmd("SMUL", "s", "x", "y"))
    fs = list(fmts or (FLAT + SINGLE + BLOCKED))
    rng.shuffle(fs)
    if fmts is None:
        fs = fs[:rng.randint(6, len(fs))]
    small = max(r, cc) <= 256
    cnt = 0
    for f in fs:
        if f in DENSE and r * cc > dense_limit: continue
        if f in ("cgbr2", "cgbr2b", "cgbr") and r * cc > dense_limit * 4: pass
        if f in SINGLE and max(r, cc) > 60000: continue
        if f == "cswr8" and r < 1: continue
        kk = 3 if f in ONLY3 else k
        s = "s"
        if kk != k or f in BLOCKED:
            # a source of its own: these conversions may reorder or use up their source
            s = "t%d" % cnt
            lines.append(gen.src(s, kk if f in ONLY3 else rng.choice([2, 3]), r, cc, es))
        m = "m%d" % cnt
        cnt += 1
        if rng.random() < .1: lines.append("SETW %d" % rng.choice([1, 2, 3, 4, 6]))
        limit = 256 if rng.random() < .7 or small else 1 << 16
        line, d = convert(rng, m, f, s, r, cc, limit, most)
        mx = max(mx, d)
        lines.append(line)
        if dump: lines.append(cmd("DUMP", m))
        if mul == "once":          # a y for every product, so that the results do not grow
            for how in "ps" if f in SERIAL else "p": lines += [gen.vec("y" + m + how, y), cmd("MUL", m, "x", "y" + m + how, how)]
        elif mul:
            lines.append(cmd("MUL", m, "x", "y", "p"))
            if f in SERIAL: lines.append(cmd("MUL", m, "x", "y", "s"))
        lines.append(cmd("RELM", m))
        if s != "s": lines.append(cmd("RELS", s))
    lines.append("SEE s")
    if mul: lines.append("VECS")
    return Hist(hid, workers or rng.choice([1, 2, 3, 4]), lines, mx, need=("double",) if bits > 24 else ())


# ------------------------------------------------- behaviours of the specification
def mc_cases(c, cfg, n):
    """Model checks MC_Formats and returns (at most n, spread over) its states."""
    import tlaval
    f = c.path("states")
    c.mc("MC_Formats", cfg, extra=["-dump", f])
    st = tlaval.states(f + ".dump" if __import__("os").path.exists(f + ".dump") else f)
    if n and len(st) > n:
        # keep all matrices without entries and with one; sample the rest
        c.rng.shuffle(st)
        st.sort(key=lambda s: min(len(s["es"]), 2))
        few = [s for s in st if len(s["es"]) < 2]
        rest = [s for s in st if len(s["es"]) >= 2]
        k = min(len(few), n // 4)
        st = few[:k] + rest[:n - k]
    return st


def case_history(rng, k, s, dump, mul, fmts=None):
    r, cc, es, ro, co, w = s["r"], s["c"], [tuple(e) for e in s["es"]], s["ro"], s["co"], s["w"]
    lines = [gen.src("s", rng.choice([2, 3]), r, cc, es)]
    if mul:
        lines += [gen.vec("x", [4 * (2 * j - 3) for j in range(1, cc + 1)]), gen.vec("y", [5 * i - 7 for i in range(1, r + 1)])]
    n = 0
    for f in (fmts or FLAT + SINGLE + BLOCKED):
        if f in BLOCKED:
            ps = [gen.blk_o(ro, co) + (" %d" % rng.choice([0, 1, 2, 3, 4, 5]) if f.startswith("cgbr2") else ""), gen.blk_c(rng.randint(1, r + 1), rng.randint(1, cc + 1))]
            if n % 2: ps = ps[:1]
        elif f.startswith("cswr"): ps = [w]
        else: ps = [""]
        for p in ps:
            a, m = "a%d" % n, "m%d" % n
            n += 1
            own = f in BLOCKED
            if own: lines.append(gen.src(a, 3 if f in ONLY3 else rng.choice([2, 3]), r, cc, es))
            lines.append(cmd("CVT", m, f, a if own else "s", p).strip())
            if dump: lines.append(cmd("DUMP", m))
            if mul:
                lines.append(cmd("MUL", m, "x", "y", "p"))
                if f in SERIAL: lines.append(cmd("MUL", m, "x", "y", "s"))
            if rng.random() < .5: lines.append(cmd("RELM", m))
    lines.append("SEE s")
    if mul: lines.append("VECS")
    return Hist("mc%d" % k, rng.choice([1, 2, 3]), lines, max(r, cc))


def replay(c, cfg, n, dump, mul, fmts=None):
    return [case_history(c.rng, k, s, dump, mul, fmts) for k, s in enumerate(mc_cases(c, cfg, n))]


# ------------------------------------------------------------- special sizes
def huge(c, n, dump, mul, fmts=None):
    """large dimensions with few entries, at the limits of the short index types"""
    rng, hs = c.rng, []
    for i in range(n):
        side = rng.choice([(65536, 3), (3, 65536), (65537, 2), (300, 257), (256, 256), (257, 40), (70001, 1), (2, 66000), (1000, 1000)])
        r, cc = side
        es = [(rng.choice([0, r - 1, rng.randrange(r), min(r - 1, 65535), min(r - 1, 255), min(r - 1, 256)]),
               rng.choice([0, cc - 1, rng.randrange(cc), min(cc - 1, 65535), min(cc - 1, 255)]), gen.value(rng)) for _ in range(rng.choice([1, 2, 5, 9]))]
        lines, mx = [gen.src("s", 2, r, cc, es)], 1
        if mul: lines += [gen.vec("x", gen.vecx(rng, cc)), gen.vec("y", gen.vecy(rng, r))]
        fs = [f for f in (fmts or FLAT + SINGLE + BLOCKED) if f not in DENSE and f != "edef"]
        if max(r, cc) > 65536: fs = [f for f in fs if f not in SINGLE]
        for k, f in enumerate(rng.sample(fs, min(len(fs), 3))):
            m, s = "m%d" % k, "s"
            if f in BLOCKED:
                s = "t%d" % k
                lines.append(gen.src(s, 3, r, cc, es))
                # blocks of exactly the largest size the short index type can address
                lim = rng.choice([256, 65536])
                def cuts(d):
                    o = [0]
                    while d - o[-1] > lim: o.append(o[-1] + lim)
                    return o + [d]
                ro, co = cuts(r), cuts(cc)
                if f == "cgbr2": p = gen.blk_o(ro, co) + " %d" % rng.choice([0, 1])
                elif f in ("cgbr", "cgbr2b") and lim > 256:   # may choose a dense block: keep them sparse
                    p = gen.blk_o(ro, co)
                else: p = gen.blk_o(ro, co)
                if f not in ("csbr", "csbru", "csbr2"): mx = max(mx, gen.blkmax(ro), gen.blkmax(co))
                lines.append(cmd("CVT", m, f, s, p))
            elif f.startswith("cswr"):
                w = rng.choice([256, 255]) if f == "cswr8" else rng.choice([256, 65536, 65535])
                lines.append(cmd("CVT", m, f, s, w))
            else:
                if f in SINGLE: mx = max(mx, r, cc)
                lines.append(cmd("CVT", m, f, s))
            if dump: lines.append(cmd("DUMP", m))
            if mul: lines.append(cmd("MUL", m, "x", "y", "p"))
        hs.append(Hist("h%d" % i, rng.choice([1, 3]), lines, mx))
    return hs


def large(c, n, dump, mul, fmts=None, sizes=None):
    """many entries in one row, column or block: counters and positions beyond 8 and 16 bits"""
    rng, hs = c.rng, []
    sizes = sizes or [255, 256, 257, 1023, 65535, 65536, 65537, 66049, 70000]
    for i in range(n):
        nn = sizes[i % len(sizes)]
        k = i // len(sizes) + i % len(sizes)
        kind = ["row", "col", "square", "spread"][k % 4]
        # columns of a block fit 16 bits, the entries may repeat
        w = min(nn, 65536)
        if kind == "row": r, cc, at = rng.choice([2, 5]), w, lambda q: (1, q % w)
        elif kind == "col": r, cc, at = w, 2, lambda q: (q % w, 1)
        elif kind == "square":
            d = max(1, int(nn ** .5)); d += d * d < nn
            e = nn // d + 1
            if rng.random() < .7: d, e = rng.choice([(d // 2, nn // (d // 2) + 1), (nn // (d // 2) + 1, d // 2)])
            r, cc, at = e, d, lambda q, d=d, e=e: (q // d % e, q % d)
        else:
            d = max(2, int((3 * nn) ** .5))
            r, cc, at = d, d + 3, lambda q, d=d: ((q * 7919) % d, (q * 104729) // 7 % (d + 3))
        es = [at(q) + (1 + q % 7 - 8 * (q % 11 == 3),) for q in range(nn)]
        if rng.random() < .5: rng.shuffle(es)
        fs = list(fmts or FLAT[:3] + [f for f in FLAT[5:] if f not in DENSE] + ["bcoo", "bcoo2", "bcsr", "bcsru", "ecoo", "ecsr", "ecsrp"] + BLOCKED)
        if r * cc <= 90000: fs += ["dense", "edenp"] if not fmts else []
        if nn > 2000:       # every format with some size beyond 16 bits
            fs = [f for q, f in enumerate(fs) if (q + i) % 4 == 0] if nn > 65535 else rng.sample(fs, min(len(fs), 3))
        for f in fs:
            for sk in ((2, 3) if f in ("csbr", "csbru") else (3,) if f in ONLY3 else (rng.choice([2, 3]),)):
                lines, mx = [gen.src("s", sk, r, cc, es)], 1
                if mul: lines += [gen.vec("x", gen.vecx(rng, cc)), gen.vec("y", gen.vecy(rng, r))]
                if f in BLOCKED:
                    ro, co = rng.choice([([0, r], [0, cc]), ([0, r // 2, r], [0, cc]), ([0, r], [0, cc - 1, cc])] if nn < 2000 else [([0, r], [0, cc]), (list(range(r + 1)) if r < 9 else [0, r], [0, cc])])
                    p = gen.blk_o(ro, co) + (" %d" % rng.choice([0, 1, 2]) if f == "cgbr2" else "")
                    if f not in ("csbr", "csbru", "csbr2"): mx = max(r, cc)
                elif f.startswith("cswr"): p = rng.choice([256, 256, 300, 65536, 70000, 13, 1000])
                else: p = ""; mx = max(r, cc) if f in SINGLE else 1
                lines.append(cmd("CVT", "m", f, "s", p).strip())
                if dump: lines.append("DUMP m")
                if mul: lines.append("MUL m x y p")
                if f not in CONSUMES3 and nn < 2000: lines.append("SEE s")
                if mul: lines.append("VECS")
                # the optimised build everywhere, the instrumented one for the small ones
                nd = () if nn < 2000 and len(hs) % 3 == 0 else ("opt",) if nn < 2000 else ("f32", "opt") if mx > 256 else ("f32",) if len(hs) % 2 else ("d64",)
                hs.append(Hist("l%d-%s%d" % (i, f, sk), rng.choice([1, 3, 4]), lines, mx, need=nd))
    return hs


def slabs(c, n, dump, mul):
    """dense matrices with very long rows or columns"""
    rng, hs = c.rng, []
    for i in range(n):
        k = rng.choice([1, 2, 3])
        long = rng.choice([1000, 1023, 1025, 2049, 4095, 4097, 5000, 8193, 16385, 20000] + ([65535, 65536, 65537] if k == 1 else [32769]))
        r, cc = (k, long) if i % 3 != 2 else (long, k)
        at = lambda d: rng.choice([rng.randrange(d), rng.randrange(d), d - 1 - rng.randrange(min(d, 9)), min(d - 1, 1024 * rng.randint(0, d // 1024)), 0])
        es = [(at(r), at(cc), gen.value(rng)) for _ in range(rng.choice([3, 30, 200]))]
        lines, mx = [gen.src("s", rng.choice([2, 3]), r, cc, es)], 1
        if mul: lines += [gen.vec("x", gen.vecx(rng, cc)), gen.vec("y", gen.vecy(rng, r))]
        fs = ["dense", "densea", "denses"] + (["eden", "edenp", "edef", "cgbr", "cgbr2"] if long <= 65536 else [])
        for q, f in enumerate(rng.sample(fs, min(len(fs), 2))):
            s, m = "s", "m%d" % q
            if f in ONLY3:
                s = "t%d" % q
                lines.append(gen.src(s, 3, r, cc, es))
                mx = max(r, cc)
                lines.append(cmd("CVT", m, f, s, gen.blk_o([0, r], [0, cc]), "" if f == "cgbr" else rng.choice([3, 4])).strip())
            else:
                if f in SINGLE: mx = max(r, cc)
                lines.append(cmd("CVT", m, f, s))
            if dump: lines.append(cmd("DUMP", m))
            if mul:
                lines.append(cmd("MUL", m, "x", "y", "p"))
                if f in SERIAL: lines.append(cmd("MUL", m, "x", "y", "s"))
        hs.append(Hist("sl%d" % i, rng.choice([1, 3]), lines, mx))
    return hs


def strips(c, n, dump, mul):
    """very many entries in blocks of a single row or column"""
    rng, hs = c.rng, []
    for i in range(n):
        nn = rng.choice([4095, 4097, 5000, 6001, 8193, 9000])
        long = rng.choice([nn, nn // 2, nn + 77, 300, 1])
        k = rng.choice([1, 1, 2, 3])
        r, cc = (k, long) if i % 3 else (long, k)
        es = [(0 if r == k else q % r, 0 if cc == k else q % cc, 1 + q % 7 - 8 * (q % 11 == 3)) for q in range(nn)]
        es += [(rng.randrange(r), rng.randrange(cc), 3) for _ in range(20)]
        if rng.random() < .5: rng.shuffle(es)
        f = (["cgbr", "cgbr2"] + BLOCKED + ["csr", "crcsr", "cswr"])[i % (len(BLOCKED) + 5)]
        lines, mx = [gen.src("s", 3 if f in ONLY3 else 2, r, cc, es)], 1
        if mul: lines += [gen.vec("x", gen.vecx(rng, cc)), gen.vec("y", gen.vecy(rng, r))]
        cut = lambda d: list(range(d + 1)) if d == k else rng.choice([[0, d], [0, d // 2, d] if d > 1 else [0, d]])
        if f in BLOCKED:
            lines.append(cmd("CVT", "m", f, "s", gen.blk_o(cut(r), cut(cc)) + (" %d" % rng.choice([0, 1, 2]) if f == "cgbr2" else "")))
            if f not in ("csbr", "csbru", "csbr2"): mx = max(r, cc)
        else: lines.append(cmd("CVT", "m", f, "s", "13" if f == "cswr" else "").strip())
        if dump: lines.append("DUMP m")
        if mul: lines.append("MUL m x y p")
        hs.append(Hist("st%d-%s" % (i, f), rng.choice([1, 3]), lines, mx, need=("opt",)))
    return hs


def stairs(c, n, dump, mul):
    """rows (or columns) of every length up to some hundreds, and dense matrices larger than that in both directions"""
    rng, hs = c.rng, []
    for i in range(n):
        kind = ["rows", "square", "rows", "cols"][i % 4]
        if kind == "square":
            r, cc = rng.choice([(129, 257), (257, 130), (300, 300), (513, 140), (200, 520), (260, 259)])
            es = [(rng.choice([rng.randrange(r), r - 1, min(r - 1, 127), 128]), rng.choice([rng.randrange(cc), cc - 1, 128, 127]), gen.value(rng)) for _ in range(300)]
            es += [(k, k * 7 % cc, 1 + k % 5) for k in range(r)]
            fs = ["dense", "densea", "denses", "eden", "edenp"]
        else:
            d = rng.choice([70, 150, 270, 300])
            order = list(range(d))
            if rng.random() < .6: rng.shuffle(order)
            at = (lambda a, b: (a, b)) if kind == "rows" else (lambda a, b: (b, a))
            # the longest ones start anywhere
            es = [at(a, (b + a) % d) + (1 + (a + 3 * b) % 6,) for a in range(d) for b in range(order[a] + (a % 2))]
            es = [e for e in es if e[0] < d and e[1] < d]
            r = cc = d
            fs = [f for f in FLAT + SINGLE + BLOCKED if f not in DENSE and f != "edef"]
        lines, mx = [gen.src("s", 2, r, cc, es)], 1
        if mul: lines += [gen.vec("x", gen.vecx(rng, cc)), gen.vec("y", gen.vecy(rng, r))]
        for q, f in enumerate(rng.sample(fs, min(len(fs), 4))):
            s, m = "s", "m%d" % q
            if f in BLOCKED:        # these use up their source
                s = "t%d" % q
                lines.append(gen.src(s, 3 if f in ONLY3 else rng.choice([2, 3]), r, cc, es))
            if f in BLOCKED:
                p, dd = blocking(rng, r, cc, f, 256)
                lines.append(cmd("CVT", m, f, s, p))
                if f not in ("csbr", "csbru", "csbr2"): mx = max(mx, dd)
            elif f.startswith("cswr"):
                lines.append(cmd("CVT", m, f, s, wide(rng, r, f)))
            else:
                if f in SINGLE: mx = max(mx, r, cc)
                lines.append(cmd("CVT", m, f, s))
            if dump: lines.append(cmd("DUMP", m))
            if mul:
                lines.append(cmd("MUL", m, "x", "y", "p"))
                if f in SERIAL: lines.append(cmd("MUL", m, "x", "y", "s"))
        hs.append(Hist("st%d" % i, rng.choice([1, 3, 4]), lines, mx))
    return hs


def hypersparse(c, n, dump, mul):
    """more blocks than 32 bits can number"""
    rng, hs = c.rng, []
    for i in range(n):
        d = rng.choice([66000, 70000])
        st = 1
        cuts = list(range(0, d + 1, st))
        es = [(rng.choice([0, d - 1, d - 2, rng.randrange(d), 62137]), rng.choice([0, 1, d - 1, rng.randrange(d)]), gen.value(rng)) for _ in range(rng.choice([3, 6, 12]))]
        # pairs whose block numbers agree in their lower 32 bits
        a, b = divmod((1 << 32) + 5, d)
        es += [(0, 5, 3), (a, b, 5)]
        f = rng.choice(["csbr", "cgbr", "cgbr2"] if dump else ["csbr", "csbr2", "cgbr", "cgbr2"])
        lines = [gen.src("s", 3, d, d, es)]
        if mul: lines += [gen.vec("x", gen.vecx(rng, d)), gen.vec("y", gen.vecy(rng, d))]
        lines.append(cmd("CVT", "m", f, "s", gen.blk_c(1, 1) if rng.random() < .5 else gen.blk_o(cuts, cuts)))
        if dump: lines.append("DUMP m")
        if mul: lines.append("MUL m x y p")
        hs.append(Hist("hs%d" % i, 2, lines, 1, need=("it64",)))
    return hs


def tall(c, n):
    """nearly 2^32 rows in wide rows"""
    rng, hs = c.rng, []
    for i in range(n):
        lines = []
        for _ in range(3):
            j = rng.randint(12, 16)
            row = lambda: rng.choice([0, 10 ** 9]) + rng.choice([0, 1, 255, 256, rng.randrange(1 << j), rng.randrange(1 << 20), rng.randrange(10 ** 9)])
            es = [(row(), rng.randrange(1 << 20), k + 1) for k in range(rng.choice([1, 5, 20]))]
            lines.append(cmd("TALL", j, rng.choice([1, 1, 2, 255, (1 << j) - 1, rng.randrange(1, 1 << j)]), len(es), gen.ent(es)))
        hs.append(Hist("ta%d" % i, 2, lines, need=("f32",)))
    return hs


def blocknumbers(c, n):
    """numbers of blocks that need more than 32 bits, from both forms of calculate_block_id"""
    rng, hs = c.rng, []
    for i in range(n):
        lines = []
        for _ in range(3):
            nbr, nbc = rng.choice([(65536, 65537), (70000, 80000), (200000, 100000), (3, 70000), (100000, 30000)])
            sr, sc = rng.choice([1, 2, 3]), rng.choice([1, 2, 5])
            form = rng.choice("cco")
            if form == "c" and rng.random() < .5: nbr, nbc = rng.choice([((1 << 24) + 1, 7), (9, (1 << 25) + 3), (99999999, 1 << 24), ((1 << 28) - 1, 1 << 28)])
            es = [(rng.choice([0, nbr * sr - 1, rng.randrange(nbr * sr)]), rng.choice([0, nbc * sc - 1, rng.randrange(nbc * sc)]), 1) for _ in range(12)]
            lines.append(cmd("BIDW", form, nbr, sr, nbc, sc, len(es), gen.ent(es)))
        hs.append(Hist("bw%d" % i, 1, lines, 1, need=("it64",)))
    return hs


def blockmath(c, n):
    """block lookup and counting on their own"""
    rng, hs = c.rng, []
    for i in range(n):
        nn = rng.randint(1, 40)
        lines = []
        for _ in range(3):
            o = gen.offsets(rng, nn, rng.choice([1, 2, 3, 8, 20]))
            lines.append(cmd("BIDX", len(o), *o))
        r, cc, es = gen.matrix(rng, 30, 40)
        br, bc = gen.constsize(rng, r), gen.constsize(rng, cc)
        lines.append(cmd("BID", br, bc, -(-cc // bc), len(es), gen.ent(es)).strip())
        lines.append(gen.src("s", rng.choice([2, 3]), r, cc, es))
        ro, co = gen.offsets(rng, r, 6), gen.offsets(rng, cc, 6)
        lines.append(cmd("CNT", "s", gen.blk_o(ro, co)))
        hs.append(Hist("b%d" % i, 1, lines))
    return hs


# ------------------------------------------------------------------ partitions
def partitions(c, n):
    """block-rows with many blocks of very different weight"""
    rng, hs = c.rng, []
    for i in range(n):
        nb = rng.choice([1, 2, 3, 4, 6, 9, 14, 25, 40] + [110] * (i % 10 == 7))
        nbr = rng.choice([1, 1, 2, 3, 5])
        w = rng.choice([1, 1, 2, 3, 4, 7, 8])
        bs = rng.choice([1, 2, 3])
        es = []
        for R in range(nbr):
            kind = rng.choice(["even", "first", "last", "one", "random", "sparse", "grow", "empty", "small"])
            for B in range(nb):
                k = {"even": 3, "first": 30 if B == 0 else 1, "last": 30 if B == nb - 1 else 1, "one": 25 if B == nb // 2 else 1,
                     "random": rng.choice([0, 1, 1, 2, 5, 12, 30]), "sparse": rng.choice([0, 0, 0, 1]), "grow": B + 1, "empty": 0, "small": 1}[kind]
                for _ in range(min(k, 40)):
                    es.append((R * bs + rng.randrange(bs), B * bs + rng.randrange(bs), gen.value(rng)))
        rng.shuffle(es)
        r, cc = nbr * bs, nb * bs
        lines = [gen.vec("x", gen.vecx(rng, cc)), gen.vec("y", gen.vecy(rng, r))]
        fs = ["csbr", "csbru", "cgbr", "cgbr2"]
        every = es
        for k, f in enumerate(fs):
            # matrices of very different weight and other numbers of workers, one after the other
            if i % 3 == 1 and k: es = every[:rng.choice([len(every), len(every) // 2, len(every) // 8, 1])]
            if i % 3 == 2 and k: lines.append("SETW %d" % rng.choice([1, 2, 3, 8, 16]))
            s, m = "s%d" % k, "m%d" % k
            lines.append(gen.src(s, 3, r, cc, es))
            if rng.random() < .5: p = gen.blk_c(bs, bs)
            else:
                p = gen.blk_o([bs * q for q in range(nbr + 1)], [bs * q for q in range(nb + 1)])
                if f == "cgbr2": p += " %d" % rng.choice([0, 1, 5])
            if i % 10 == 7: lines.append("SETW %d" % rng.choice([16, 24, 48]))
            lines += [cmd("CVT", m, f, s, p), cmd("DUMP", m)]
            if i % 10 == 7: lines.append("SETW %d" % rng.choice([1, 3, 8]))
            lines.append(cmd("MUL", m, "x", "y", "p"))
        lines.append("VECS")
        hs.append(Hist("p%d" % i, w, lines, bs))
    return hs


def weights(c, n):
    """partitions of block-rows alone: many workers, many blocks, many nonzeros"""
    rng, hs = c.rng, []
    for i in range(n):
        lines = []
        for _ in range(8):
            nb = rng.choice([1, 2, 3, 20, 65, 130, 260, 300])
            top = rng.choice([1, 3, 40, 300, 5000, 70000, 1 << 17, 1 << 20])
            kind = rng.choice(["even", "one", "grow", "any", "any", "last"])
            bn = {"even": [top] * nb, "one": [1] * nb, "grow": [1 + top * k // nb for k in range(nb)],
                  "any": [rng.choice([0, 1, top, rng.randint(0, top)]) for _ in range(nb)], "last": [1] * (nb - 1) + [top]}[kind]
            if kind == "one": bn[rng.randrange(nb)] = top
            s = rng.choice([0, 0, rng.randrange(nb)])
            e = rng.choice([nb, nb, rng.randint(s, nb), s])
            if rng.random() < .7: lines.append("SETW %d" % rng.choice([1, 2, 5, 16, 17, 32, 48, 64, 100, 128]))
            lines.append(cmd("PART", sum(bn) + rng.choice([0, 0, 0, 1, top]), s, e, nb, *bn))
        hs.append(Hist("w%d" % i, rng.choice([1, 2, 4, 8]), lines, 1))
    return hs


# --------------------------------------------------------------- permutations
def permutations(c, n, sizes):
    rng, hs = c.rng, []
    for i in range(n):
        m = rng.choice(sizes)
        if m > 3: m = max(1, m + rng.randint(-2, 2))
        p = gen.perm(rng, m)
        q = sorted(range(m), key=lambda k: p[k])
        k = rng.choice([0, 1, 63, 64, 65, 130, 200, rng.randint(0, 2 * m + 3)])
        idx = [rng.randrange(m) for _ in range(k)]
        es = gen.entries(rng, m, m, rng.choice([0, 1, 64, 65, 129, rng.randint(0, 3 * m)]))
        lines = [cmd("INV", m, *p), cmd("INV", m, *q), cmd("PIDX", m, *p, k, *idx), cmd("PMAT", m, *p, len(es), gen.ent(es)).strip()]
        # permute a matrix and its vectors, multiply, and permute back
        if m <= 200:
            s = gen.src("s", rng.choice([2, 3]), m, m, es)
            x, y = gen.vecx(rng, m), gen.vecy(rng, m)
            px, py = [0] * m, [0] * m
            for a in range(m): px[p[a]], py[p[a]] = x[a], y[a]
            lines += [s, gen.vec("x", px), gen.vec("y", py), cmd("PSRC", "s", m, *p), "SMUL s x y", cmd("PSRC", "s", m, *q), "SEE s",
                      gen.vec("x2", x), gen.vec("y2", y), "SMUL s x2 y2"]
        hs.append(Hist("q%d" % i, rng.choice([1, 2, 3, 4, 8]), lines))
    return hs


def long_permutations(c):
    """more indices than 16 bits count"""
    rng, hs = c.rng, []
    for i in range(2):
        m = 65536 + rng.choice([1, 2, 500, 3333])
        p = gen.perm(rng, m)
        if p[65535] == 65535: p[65535], p[7] = p[7], p[65535]
        idx = [rng.choice([65535, 65536, 65534, 0, m - 1, rng.randrange(m)]) for _ in range(200)]
        es = [(rng.choice([65535, 65536, rng.randrange(m)]), rng.choice([65535, 65536, rng.randrange(m)]), k) for k in range(100)]
        hs.append(Hist("lp%d" % i, 4, [cmd("INV", m, *p), cmd("PIDX", m, *p, len(idx), *idx), cmd("PMAT", m, *p, len(es), gen.ent(es))], need=[("opt", "f32"), ("it64",)][i]))
    return hs


def long_expansions(c):
    """more blocks than 16 bits count"""
    rng, hs = c.rng, []
    for i in range(2):
        nb = 65536 + rng.choice([1, 2, 500, 3333])
        b = [rng.choice([0, 0, 1, 2]) for _ in range(nb)]
        b[rng.choice([0, nb - 1, 65535])] = 3
        b[65535], b[65536], b[-1] = 2, 1, b[-1] or 1
        off = [0]
        for s in b: off.append(off[-1] + s)
        pick = lambda: rng.choice([off[65535], off[65536], off[-1] - 1, rng.randrange(off[-1])])
        idx, es = [pick() for _ in range(100)], [(pick(), pick(), k) for k in range(50)]
        hs.append(Hist("le%d" % i, 4, [cmd("EIDX", nb, *b, len(idx), *idx)] + [cmd("EMAT", nb, *b, len(es), gen.ent(es))] * i, need=[("opt", "f32"), ("it64",)][i]))
    return hs


def expansions(c, n, hi=40):
    rng, hs = c.rng, []
    for i in range(n):
        nb = rng.choice([1, 1, 2, 3, 5, 8, 13])
        if i % 8 == 3: nb = rng.choice([63, 64, 65, 100, 128, 200, 300])
        top = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 33, hi])
        b = [rng.choice([0, 1, top, rng.randint(0, top)]) for _ in range(nb)]
        if rng.random() < .4: b[rng.randrange(nb)] = top
        if i % 16 == 3:     # long blocks at one end
            b = sorted(b, key=lambda v: (v > top // 2, rng.random()))
            if rng.random() < .6: b.reverse()
        if not any(b): b[rng.randrange(nb)] = top
        m = sum(b)
        if m > 1500: b = [min(v, 2) if rng.random() < .9 else v for v in b]; m = sum(b)
        k = rng.choice([0, 1, 63, 64, 65, 130, rng.randint(0, 3 * m + 1)])
        idx = [rng.randrange(m) for _ in range(k)]
        if rng.random() < .5: idx = list(range(m))
        es = gen.entries(rng, m, m, rng.choice([0, 1, 64, 65, 129, rng.randint(0, min(3 * m, 600))]))
        lines = [cmd("EIDX", nb, *b, len(idx), *idx), cmd("EMAT", nb, *b, len(es), gen.ent(es)).strip()]
        hs.append(Hist("e%d" % i, rng.choice([1, 2, 3, 4, 8]), lines))
    return hs


def listings(c, n):
    """sources, matrices and vectors, printed"""
    rng, hs = c.rng, []
    for i in range(n):
        hi, nn = rng.choice([(6, 12), (20, 20), (30, 25), (200, 300)])
        r, cc, es = gen.matrix(rng, hi, nn)
        mx = 1
        lines = [gen.src("s", rng.choice([2, 3]), r, cc, es), "LIST s s", gen.vec("x", gen.vecx(rng, cc)), gen.vec("y", gen.vecy(rng, r)), "LIST v x", "LIST v y"]
        fs = ["csr", "csra", "csrs", "csr2", "csr2x", "cswr", "cswr8", "cswra"] + BLOCKED
        for k, f in enumerate(rng.sample(fs, 6)):
            m, s = "m%d" % k, "s"
            if f in BLOCKED:
                s = "t%d" % k
                lines.append(gen.src(s, 3 if f in ONLY3 else rng.choice([2, 3]), r, cc, es))
            line, d = convert(rng, m, f, s, r, cc, 256)
            mx = max(mx, d)
            lines += [line] + ["DUMP " + m] * f.startswith("cgbr") + ["LIST i " + m]
            if f in ("csr", "csra", "csrs"): lines.append("LIST m " + m)
            if rng.random() < .3: lines += ["MUL %s x y p" % m, "LIST v y"]
            if s == "s" and rng.random() < .3: lines.append("LIST s s")
        hs.append(Hist("li%d" % i, rng.choice([1, 2, 4]), lines, mx))
    return hs


def summaries(c, n):
    """summaries of matrices with dimensions, counts and numbers of blocks beyond 8 and 16 bits"""
    rng, hs = c.rng, []
    fs = ["csr", "csr2", "cswr", "csbr", "csbru", "csbr2", "cgbr", "cgbr2"]
    for i in range(n):
        f, k = fs[i % 8], i // 8 % 3
        if k == 0:          # many entries
            r, cc, nn = rng.choice([(300, 300), (65536, 300), (2, 65535), (60000, 65536)]) + (rng.choice([65535, 65536, 65537, 70000]),)
        elif k == 1:        # large dimensions
            r, cc = [rng.choice([65535, 65536, 65537, 70000, 131072, 199999]) for _ in "rc"]
            nn = rng.choice([3, 300, 2000])
        else:               # many blocks
            r, cc = [rng.choice([270, 300, 600]) for _ in "rc"]
            nn = 70000 if i // 24 % 2 else rng.choice([300, 1000, 2000])
        es = [((q * 7919 if nn < 3000 else q // cc) % r, q * 104729 % cc, 1 + q % 5) for q in range(nn)]
        mx = 1
        if f.startswith("cs") and f[:3] == "csr": line = cmd("CVT", "m", f, "s")
        elif f == "cswr": line = cmd("CVT", "m", f, "s", rng.choice([13, 300]))
        else:
            ro, co = ([0, r], [0, cc]) if k == 0 else ([0, 1, 30000, 60000, r], [0, cc // 2, cc]) if k == 1 else (list(range(r + 1)), list(range(cc + 1)))
            line = cmd("CVT", "m", f, "s", gen.blk_o(ro, co) + (" 1" if f == "cgbr2" else ""))
            mx = max(b - a for o in (ro, co) for a, b in zip(o, o[1:]))
        lines = [gen.src("s", 3 if f in ONLY3 else 2 + i % 2, r, cc, es), line, "LIST i m"]
        if nn <= 2000 and f == "csr": lines.append("LIST m m")
        hs.append(Hist("lw%d" % i, 2, lines, mx))
    return hs


def multitude(c, n, dump, mul):
    """very many small blocks of constant size; very many nonzero blocks"""
    rng, hs = c.rng, []
    fs = ["csbr", "csbru", "csbr2", "cgbr", "cgbr2"]
    for i in range(n):
        f = fs[i % 5]
        many = mul and i % 10 == 6
        br, bc = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3])
        r, cc = (rng.randint(257, 400) * br, rng.randint(1, 400) * bc) if i // 5 % 2 else (rng.randint(1, 300) * br, rng.randint(257, 400) * bc)
        nn = rng.choice([100, 300, 700])
        if many: r, cc, br, bc, nn = 130, 129, 1, 1, 12000
        es = [(rng.randrange(r), rng.randrange(cc), rng.randint(-9, 9)) for _ in range(nn)]
        if not many: es += [(r - 1 - rng.randrange(3) * (r > 3), cc - 1, k) for k in range(3)] + [(r - 1, 0, 5)]
        lines = [gen.src("s", 3 if f in ONLY3 else rng.choice([2, 3]), r, cc, es), cmd("CVT", "m", f, "s", gen.blk_c(br, bc) + (" 1" if f == "cgbr2" else ""))]
        if dump: lines.append("DUMP m")
        if mul: lines += [gen.vec("x", gen.vecx(rng, cc)), gen.vec("y", gen.vecy(rng, r)), "MUL m x y p", "VECS"]
        hs.append(Hist("mu%d" % i, rng.choice([1, 3, 8]), lines, 7, need=("opt", "f32") if many else ()))
    return hs


def bulks(c, fs):
    """more entries than single precision counts"""
    rng, hs = c.rng, []
    for i, f in enumerate(fs):
        n = (1 << 24) + rng.choice([1, 3, 5, 1001, 99999])
        r, cc = rng.randint(3, 9), rng.randint(2, 6)
        a = ""
        if f == "cswr": a = str(rng.randint(2, 9))
        elif f[:3] != "csr":
            a = gen.blk_o(gen.offsets(rng, r, r), gen.offsets(rng, cc, cc))
            if f == "cgbr2": a += " %d" % rng.choice([-1, 0, 1, 2, 3])
        hs.append(Hist("n%d" % i, 4, [cmd("BULK", n, r, cc, 3 if f in ONLY3 else rng.choice([2, 3]), f, a).strip()], need=("opt",)))
    return hs


def giants(c, n):
    """expansions of blocks with very many rows (indices only)"""
    rng, hs = c.rng, []
    for i in range(n):
        lines = []
        for _ in range(4):
            k = rng.randint(5, 28)
            top = max(1, (1 << k) + rng.choice([-1, 0, 1, 1, 2, 3]))
            nb = rng.randint(1, max(1, min(12, 1999999999 // (1 << k + 1))))
            b = [rng.choice([0, 1, top, rng.randint(0, top), rng.randint(0, min(top, 300))]) for _ in range(nb)]
            b[rng.randrange(nb)] = top
            off, idx = 0, []
            for s in b:
                if s: idx += [off, off + s - 1, off + rng.randrange(s), off + s // 2]
                off += s
            rng.shuffle(idx)
            lines.append(cmd("EIDX", nb, *b, len(idx), *idx))
            es = [(rng.choice(idx), rng.choice(idx), gen.value(rng)) for _ in range(rng.choice([0, 1, 20, 70]))]
            lines.append(cmd("EMAT", nb, *b, len(es), gen.ent(es)).strip())
        hs.append(Hist("eg%d" % i, rng.choice([1, 2, 4]), lines))
    return hs


# -------------------------------------------------------------------- sorting
def sorts(c, n, sizes):
    rng, hs = c.rng, []
    for i in range(n):
        nn = rng.choice(sizes)
        if nn > 3: nn = max(0, nn + rng.randint(-1, 1))
        hi = rng.choice([1, 2, 3, 10, 100, 1000, 60000, 60000, 1 << 18, 1 << 22, 1 << 30])
        r, cc = rng.randint(1, hi), rng.randint(1, hi)
        es = gen.entries(rng, r, cc, nn)
        # values number the entries, so that stability is visible
        es = [(a, b, k + 1) for k, (a, b, _) in enumerate(es)]
        lines, need = [], ()
        by = ["row", "rowm", "col", "morton", "wide 1", "wide %d" % rng.randint(1, 40)]
        for _ in range(2): by.append("block " + gen.blk_o(gen.offsets(rng, r, 7), gen.offsets(rng, cc, 7)))
        if hi > 60000: by.remove("morton")
        rng.shuffle(by)
        for k, q in enumerate(by[:4] if nn > 300 else by):
            s = "s%d" % k
            lines.append(gen.src(s, rng.choice([2, 3]), r, cc, es))
            if rng.random() < .3 and q != "morton":
                lines.append(cmd("SPREAD", *spread(rng, r, i % 4 == 3), *spread(rng, cc, i % 4 == 3)))
                if i % 4 == 3: need = ("it64",)
            lines.append(cmd("SORT", s, q))
            if rng.random() < .5: lines.append(cmd("SORT", s, rng.choice(["row", "col", "morton" if hi <= 60000 else "wide 3"])))
            lines.append(cmd("RELS", s))
        hs.append(Hist("o%d" % i, rng.choice([1, 2, 3, 4, 8]), lines, need=need))
    return hs


def long_sorts(c):
    """more entries than 16 bits count, nearly in order already; the last one belongs first in its block-row"""
    rng, hs = c.rng, []
    for i, by in enumerate(["row", "rowm", "col", "morton", "block", "wide 7"]):
        nn = 65536 + rng.choice([1, 500])
        r, cc = 300, 300
        es = sorted((rng.randrange(r), rng.randrange(cc)) for _ in range(nn))
        ro, co = [0, 100, 200, 297, 300], [0, 299, 300]
        if by == "block": es.sort(key=lambda e: (bisect.bisect(ro, e[0]), bisect.bisect(co, e[1])))
        for _ in range(9): es.insert(rng.randrange(nn), es.pop(rng.randrange(nn)))
        es += [(297, 299), (297, 0), (299, 0)]
        es = [e + (k + 1,) for k, e in enumerate(es)]
        lines = [gen.src("s", 2 + i % 2, r, cc, es), cmd("SORT", "s", by + (" " + gen.blk_o(ro, co) if by == "block" else ""))]
        hs.append(Hist("lo%d" % i, 4, lines, need=("opt", "f32")))
    return hs


def spread(rng, n, wide):
    """factor and offset (smaller than the factor) with which indices below n fill the index type"""
    top = (1 << 64) - 1 if wide and rng.random() < .7 else (1 << 32) - 1
    a = rng.choice([top // n, top // n, (1 << 32) // n + 1 if top >> 32 else top // n, max(1, (1 << 31) // n), 65536 if n <= 65535 else 1, 1])
    return a, rng.choice([0, a - 1, a // 2])


# ------------------------------------------------------- histories of GsbLib
def pool(rng, n, hi=12, nn=40):
    res = []
    shapes = []
    for i in range(n):
        if shapes and rng.random() < .5: r, cc = rng.choice(shapes)
        else: r, cc = gen.shape(rng, hi)
        shapes.append((r, cc))
        es = gen.entries(rng, r, cc, rng.choice([0, 1, 2, 5, nn // 2, nn]))
        es = es[:3 * r * cc + 2]
        res.append({"r": r, "c": cc, "es": es, "x": gen.vecx(rng, cc), "y": gen.vecy(rng, r), "perm": gen.perm(rng, r) if r == cc else [],
                    "ro": gen.offsets(rng, r, 5), "co": gen.offsets(rng, cc, 5)})
        if r == cc and rng.random() < .4: res[-1]["co"] = list(res[-1]["ro"])
    return res


def simulated(c, runs, depth, pools):
    """Behaviours of MC_GsbLib, turned into scenarios: after the last call everything
    that is still alive is multiplied and looked at."""
    import json, os, glob, tlaval
    c.mc("MC_GsbLib", "MC_GsbLib_check.cfg", env={"VF_POOL": write_pool(c, "tiny", [
        {"r": 2, "c": 2, "es": [[0, 1, 3], [1, 1, -2]], "x": [4, -8], "y": [1, 2], "ro": [0, 1, 2], "co": [0, 1, 2], "perm": [1, 0]},
        {"r": 1, "c": 2, "es": [[0, 1, 5]], "x": [8, 12], "y": [3], "ro": [0, 1], "co": [0, 2], "perm": []}])})
    hs = []
    from concurrent.futures import ThreadPoolExecutor
    jobs = []
    for k in range(pools):
        ps = pool(c.rng, 6)
        jobs.append((k, ps, c.rng.randrange(1 << 30)))

    def one(j):
        k, ps, seed = j
        d = c.path("sim%d" % k)
        os.makedirs(d)
        r = c.tlc("MC_GsbLib", "MC_GsbLib_sim.cfg", env={"VF_POOL": write_pool(c, "p%d" % k, ps)},
                  extra=["-simulate", "file=%s/t,num=%d" % (d, runs), "-depth", str(depth), "-seed", str(seed)])
        if r["rc"] != 0: raise RuntimeError("simulation failed: " + r["out"][-2000:])
        return [(k, ps, open(f).read()) for f in sorted(glob.glob(d + "/t_*"))]
    with ThreadPoolExecutor(8) as ex:
        res = [x for l in ex.map(one, jobs) for x in l]
    for n, (k, ps, text) in enumerate(res):
        cmds = [tlaval.parse(m) for m in re.findall(r"/\\ cmd = (<<.*?>>)\n", text)]
        hs.append(to_scenario(c.rng, "s%d" % n, ps, cmds))
    c.cov["simulated_behaviours"] = len(hs)
    return hs


def twins(c, n):
    """several matrices that agree in shape, counts and boundaries, used in turn: mirrored,
    shifted, with other values; some released while the others are in use"""
    rng, hs = c.rng, []
    for i in range(n):
        r, cc, es = gen.matrix(rng, *rng.choice([(8, 24), (24, 90), (90, 300)])) if i % 3 else gen.thick(rng)
        if i % 2 and r > 1:     # most of the work in few rows
            es = [(e[0] if rng.random() < .3 else e[0] % max(1, r // 4), e[1], e[2]) for e in es]
        kinds = [lambda e: e, lambda e: (r - 1 - e[0],) + e[1:], lambda e: (e[0], cc - 1 - e[1], e[2]),
                 lambda e: ((e[0] + 1) % r,) + e[1:], lambda e: e[:2] + (e[2] % 11 + 1,), lambda e: (r - 1 - e[0], cc - 1 - e[1], -e[2])]
        f = (FLAT + BLOCKED * 4)[rng.randrange(len(FLAT) + 4 * len(BLOCKED))] if i % 4 else "cgbr2"
        line, mx = convert(rng, "@", f, "$", r, cc, 256)
        if f in DENSE and r * cc > 40000: continue
        fs = [f]
        if rng.random() < .3:   # another format with the same boundaries
            g = {"csbr": "csbru", "csbru": "csbr2", "csbr2": "csbr", "cgbr": "csbru", "csr": "csr2", "csr2": "csr", "cswr": "cswr8"}.get(f)
            if g: fs.append(g)
        lines, live, vs = [], [], 0
        lines += [gen.vec("x", gen.vecx(rng, cc)), gen.vec("y", gen.vecy(rng, r)), gen.vec("z", gen.vecy(rng, r))]
        for k in range(rng.randint(4, 9)):
            t = rng.random()
            if live and t < .3 and k > 1:
                m = live.pop(rng.randrange(len(live))); lines.append("RELM " + m)
            q = list(map(kinds[k % 6] if k < 2 else rng.choice(kinds), es))
            if rng.random() < .3: rng.shuffle(q)
            g = rng.choice(fs)
            sk = 3 if g in ONLY3 else rng.choice([2, 3])
            lines.append(gen.src("s%d" % k, sk, r, cc, q))
            lines.append(line.replace("@", "m%d" % k).replace("$", "s%d" % k).replace(" %s " % f, " %s " % g))
            if rng.random() < .7: lines.append("RELS s%d" % k)
            live.append("m%d" % k)
            for m in rng.sample(live, min(len(live), 2)): lines.append("MUL %s x %s p" % (m, rng.choice("yz")))
            if rng.random() < .3: lines.append("SETW %d" % rng.choice([1, 2, 3, 4, 7]))
            if rng.random() < .3: lines.append("VECS")
        for m in live + live: lines.append("MUL %s x %s p" % (m, rng.choice("yz")))
        lines.append("VECS")
        hs.append(Hist("tw%d" % i, rng.choice([1, 2, 3, 4, 8]), lines, mx))
    return hs


def write_pool(c, name, ps):
    import json
    f = c.path("pool-%s.json" % name)
    json.dump(ps, open(f, "w"))
    return f


def to_scenario(rng, hid, ps, cmds):
    lines, mats, vecs, srcs = [], {}, {}, {}
    mx = 1
    for t in cmds:
        op = t[0]
        if op == "SRC":
            p = ps[t[3] - 1]
            lines.append(gen.src(t[1], t[2], p["r"], p["c"], [tuple(e) for e in p["es"]]))
            srcs[t[1]] = (p["r"], p["c"])
        elif op == "VEC":
            v = ps[t[3] - 1][t[2]]
            lines.append(gen.vec(t[1], v)); vecs[t[1]] = len(v)
        elif op == "CVT":
            r, cc = srcs[t[3]]
            a = ""
            if t[4]:
                p = ps[t[4] - 1]
                a = gen.blk_o(p["ro"], p["co"])
                if t[2].startswith("cgbr2"): a += " %d" % rng.choice([-1, 0, 1, 2, 3, 4, 5])
            elif t[2].startswith("cswr"): a = str(wide(rng, r, "cswr8"))
            lines.append(cmd("CVT", t[1], t[2], t[3], a).strip()); mats[t[1]] = (r, cc)
        elif op == "MUL":
            lines.append(cmd("MUL", t[1], t[2], t[3], "p"))
        elif op == "SMUL":
            lines.append(cmd(*t))
        elif op == "SETP": lines.append(cmd(*t))
        elif op == "SORT": lines.append(cmd(*t))
        elif op == "PSRC":
            p = ps[t[2] - 1]["perm"]; lines.append(cmd("PSRC", t[1], len(p), *p))
        elif op == "RELM": lines.append(cmd(*t)); del mats[t[1]]
        elif op == "RELS": lines.append(cmd(*t)); del srcs[t[1]]
        elif op == "RELV": lines.append(cmd(*t)); del vecs[t[1]]
        if rng.random() < .15: lines.append("VECS")
    for m, (r, cc) in sorted(mats.items()):
        lines += [gen.vec("x" + m, gen.vecx(rng, cc)), gen.vec("y" + m, gen.vecy(rng, r)), cmd("MUL", m, "x" + m, "y" + m, "p"), cmd("MUL", m, "x" + m, "y" + m, "p")]
    for s in sorted(srcs): lines.append(cmd("SEE", s))
    lines.append("VECS")
    for m in sorted(mats): lines.append(cmd("RELM", m))
    for s in sorted(srcs): lines.append(cmd("RELS", s))
    return Hist(hid, rng.choice([1, 2, 3, 4]), lines, mx)
