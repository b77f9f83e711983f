"""Sessions for the command-line tools."""
import struct
import ioscen

W4, W8 = ioscen.W(4, 4), ioscen.W(4, 8)
FILE = lambda n, b: ("file", (n, b), {})


def run(tool, args, **kw):
    return ("run", (tool, args), kw)


def name(rng, base):
    x = rng.random()
    if x < .5: return base
    if x < .6: return "sub.dir/" + base + ".bin"
    if x < .7: return base + " with blank"
    if x < .8: return "%s-" % base + "%s%n%d"
    if x < .9: return "./" + base if False else base + "." * 3
    return long_name(rng, base)


def long_name(rng, base, total=None):
    """A path close to what the system allows."""
    total = total or rng.choice([130, 240, 245, 250, 251, 256, 257, 300, 512, 600, 1030, 2050, 3500])
    s, left = "", total - len(base)
    while left > 200:
        k = min(200, left - 1)
        s += "L" * (k - 1) + "/"
        left -= k
    return s + "x" * max(0, left) + base


def sizes(rng):
    while True:
        z = [rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 17]) for _ in range(rng.randint(1, 6))]
        if rng.random() < .1: z = [rng.choice([1, 40, 65, 300])] * rng.randint(1, 3)
        if sum(z): return z


def fval(rng, w, plain):
    return struct.pack(ioscen.VT[w.vw], rng.randint(-40, 40) / 4.0) if plain else ioscen.bits(rng, w)


def mat(rng, m1, m2, n, w, plain=False):
    st = rng.random()
    es = []
    for _ in range(n):
        if st < .3 and es and rng.random() < .5: e = rng.choice(es)[:2]
        elif st < .5: e = (rng.choice([0, m1 - 1]), rng.choice([0, m2 - 1]))
        else: e = (rng.randrange(m1), rng.randrange(m2))
        es.append((e[0], e[1], fval(rng, w, plain)))
    return es


def three(rng, w, es, ns):
    return [FILE(n, b) for n, b in zip(ns, w.three(es))]


def distinct(f):
    while True:
        ns = f()
        if len(set(ns)) == len(ns) and not any(a != b and b.startswith(a + "/") for a in ns for b in ns): return ns


def case(rng, tool, big=False, z=None):
    """(files, arguments, names of the outputs) of a run that has to succeed"""
    n = rng.choice([1, 1, 2, 3, 5, 9, 20]) if not big else big
    given, z = z, z or sizes(rng)
    if big and not given: z = [rng.randint(1, 40) for _ in range(12)]
    m = sum(z)
    if tool == "convert":
        r, c = ioscen.shape(rng)
        es = mat(rng, r, c, n, W4)
        ns = distinct(lambda: [name(rng, x) for x in ("rows", "cols", "vals", "out")])
        mode = rng.choice(["bin", "mtx", "all"])
        return three(rng, W4, es, ns), ns + [mode], [ns[3] + x for x in {"bin": [".bin"], "mtx": [".mtx"], "all": [".mtx", ".bin"]}[mode]]
    if tool in ("convert_blocked", "expanded"):
        es = mat(rng, m, m, n, W4)
        ns = distinct(lambda: [name(rng, x) for x in ("rows", "cols", "vals", "sizes", "out")])
        return three(rng, W4, es, ns) + [FILE(ns[3], W4.i(*z))], ns, [ns[4]] if tool == "convert_blocked" else [ns[4] + ".exp%d" % pow2(max(z))]
    if tool in ("permute", "ipermute"):
        p = perm(rng, m)
        ns = distinct(lambda: [name(rng, x) for x in ("rows", "cols", "perm")])
        k = [rng.randrange(m) for _ in range(rng.choice([0, 1, n]))]
        if rng.random() < .1:
            ns[1] = ns[0]
        return [FILE(ns[0], W4.i(*[rng.randrange(m) for _ in range(n)])), FILE(ns[1], W4.i(*k)), FILE(ns[2], W4.i(*p))], ns, [x + ".permuted" for x in (ns[1], ns[0])]
    if tool == "sort":
        blocks, mm = rng.random() < .5, rng.random() < .4
        if mm:
            sym = rng.choice(["general", "general", "symmetric", "skew-symmetric"])
            es = [(a, b, struct.unpack("<d", v)[0]) for a, b, v in mat(rng, m, m, n, W8, True)]
            if sym != "general": es = list({e[:2]: e for e in ioscen.tri(es, sym[1] == "k")}.values())
            ns = distinct(lambda: [name(rng, x) for x in ("in.mtx", "sizes")])
            fs = [FILE(ns[0], ioscen.mmtext(rng, m, m, es, "real", sym, nums=[x for x in ioscen.NUMS if x[0] != "+"] if rng.random() < .5 else None))]
            outs = [ns[0] + ".sorted"]
        else:
            ns = distinct(lambda: [name(rng, x) for x in ("rows", "cols", "vals", "sizes")])
            fs, outs = three(rng, W8, mat(rng, m, m, n, W8), ns), [x + ".sorted" for x in ns[:3]]
        return fs + ([FILE(ns[-1], W4.i(*z))] if blocks else []), ns if blocks else ns[:-1], outs
    if tool == "prepare":
        es = mat(rng, m, m, n, W4)
        ns = distinct(lambda: [name(rng, x) for x in ("rows", "cols", "vals", "perm", "sizes", "out")])
        return three(rng, W4, es, ns) + [FILE(ns[3], W4.i(*perm(rng, m))), FILE(ns[4], W4.i(*z))], ns, [ns[5] + x for x in (".row", ".block", ".col", ".col.exp%d" % pow2(max(z)))]
    if tool == "double2float":
        ns = distinct(lambda: [name(rng, x) for x in ["vals", "v2", "v3"][:rng.choice([1, 1, 2, 3])]])
        return [FILE(x, b"".join(dbl(rng) for _ in range(rng.choice([0, 1, n, 40])))) for x in ns], ns, [x + ".float" for x in ns]
    if tool == "one2zero":
        ns = distinct(lambda: [name(rng, x) for x in ["rows", "v2", "v3"][:rng.choice([1, 1, 2, 3])]])
        return [FILE(x, W4.i(*[rng.choice([1, 2, 256, 65536, (1 << 24), (1 << 32) - 1, rng.randint(1, 1 << 32) % (1 << 32) or 1]) for _ in range(rng.choice([0, 1, n, 40]))])) for x in ns], ns, [x + ".zero" for x in ns]
    if tool == "pprint":
        mode = rng.choice(["triples", "blocks", "vector", None])
        es = mat(rng, m, m, n, W4)
        o = [0]
        for k in z: o.append(o[-1] + k)
        b = {"triples": W4.bin(m, m, es), "vector": W4.i(*z)}.get(mode) or W4.blk(m, m, es, o, o)
        f = name(rng, "file")
        return [FILE(f, b)], [f] + ([mode] if mode else []), []


def perm(rng, m):
    p = list(range(m))
    x = rng.random()
    if x < .1: return p
    if x < .2: return p[1:] + p[:1]
    if x < .3: return p[::-1]
    rng.shuffle(p)
    return p


def pow2(n):
    k = 1
    while k < n: k *= 2
    return k


def dbl(rng):
    """Doubles around the ones that matter for single precision."""
    x = rng.random()
    if x < .25: return ioscen.bits(rng, W8)
    if x < .3: return struct.pack("<d", rng.choice([float("inf"), -float("inf"), 0.0, -0.0]))
    e = rng.choice([rng.randint(-155, -120), -149, -150, -151, -126, -127, 127, 128, rng.randint(-20, 20)])
    top = rng.choice([0, (1 << 23) - 1, rng.getrandbits(23), rng.getrandbits(23)])
    low = rng.choice([0, 1, 1 << 28, (1 << 28) - 1, (1 << 28) + 1, (1 << 29) - 1, rng.getrandbits(29)])
    return struct.pack("<Q", (rng.getrandbits(1) << 63) | ((e + 1023) << 52) | (top << 29) | low)


def contents(rng, n, tools, flavours):
    ss = []
    for k in range(n):
        tool = tools[k % len(tools)]
        fs, args, outs = case(rng, tool)
        st = list(fs) + [("parents", (args,), {})]
        if rng.random() < .3:      # left over from before
            st += [FILE(o, bytes(rng.randrange(256) for _ in range(rng.choice([0, 3, 3000])))) for o in outs]
        st.append(FILE("other", b"stay"))
        st.append(run(tool, args, absolute=tool not in ("pprint",) and rng.random() < .3, workers=rng.choice([1, 2, 4])))
        x = rng.random()
        if x < .25:      # usage
            if tool in ("permute", "ipermute", "prepare", "convert", "convert_blocked", "expanded"):
                st.append(run(tool, rng.choice([args[:-1], args[:-1], args + args[-1:] if tool != "expanded" else [], [], args[:1]])))
            elif tool == "sort":
                st.append(run(tool, rng.choice([[], args[:1] * 5])))
            else:
                st.append(run(tool, []))
            if tool == "convert":
                st.append(run(tool, args[:4] + [rng.choice(["text", "BIN", "binary", "", "al", "mtx2", "mtxmtx", "b"])]))
        elif x < .4 and outs:    # obstacles
            st += [("clear", (), {}), ("setup", (outs[0], "dir"), {})] if not any(s[1][0] == outs[0] for s in st if s[0] == "file") else []
            if st[-1][0] == "setup":
                st += [run(tool, args, hindered=True), ("setup", (outs[0], "gone"), {})]
        elif x < .5 and tool != "pprint":
            a2 = [a if a in ("bin", "mtx", "all") or k2 != len(args) - 1 - (tool == "convert") else "nodir/" + a for k2, a in enumerate(args)] if tool in ("convert", "convert_blocked", "expanded", "prepare") else args
            if a2 != args:
                st.append(run(tool, a2, hindered=True))
        elif x < .55:
            st.append(run(tool, [a if a in ("bin", "mtx", "all", "triples", "blocks", "vector") else long_name(rng, "missing", rng.choice([200, 5200])) for a in args]))
        ss.append(("contents-%s-%d" % (tool, k), rng.choice(flavours), st))
    return ss


def names_of(tool, args):
    """positions of the arguments that are names of files"""
    return [k for k in range(len(args)) if not (tool == "convert" and k == 4)]


def paths(rng, tools, flavours, totals=(1000, 1024, 2048, 3000, 3900)):
    """Every argument in turn as long as a path may be, and many arguments."""
    ss = []
    for tool in tools:
        for pos in range(6):
            fs, args, outs = case(rng, tool)
            while tool == "sort" and len(args) < 4: fs, args, outs = case(rng, tool)
            if pos not in names_of(tool, args) or args.count(args[pos]) > 1: continue
            st = []
            for k, total in enumerate(totals):
                nm = long_name(rng, "n", total)
                a2 = [nm if j == pos else a for j, a in enumerate(args)]
                f2 = [FILE(nm if f[1][0] == args[pos] else f[1][0], f[1][1]) for f in fs]
                st += [("parents", (a2,), {})] + f2 + [run(tool, a2), ("clear", (), {})]
            ss.append(("paths-%s-%d" % (tool, pos), rng.choice(flavours), st))
        if tool in ("double2float", "one2zero"):
            for n in (7, 8, 9, 10, 16, 33):
                ns = ["f%d" % k for k in range(n)]
                fs = [FILE(x, b"".join(dbl(rng) for _ in range(3)) if tool[0] == "d" else W4.i(rng.randint(1, 1 << 31), k + 1)) for k, x in enumerate(ns)]
                ss.append(("many-%s-%d" % (tool, n), rng.choice(flavours), fs + [run(tool, ns)]))
    return ss


def giants(rng, tools, flavours):
    """More elements, bytes, blocks or rows than 16 bits can count; sizes near 32 bits."""
    ss = []
    for tool in tools:
        if tool in ("double2float", "one2zero"):
            n = 65536 + rng.randint(1, 40)
            b = W4.i(*[rng.choice([1, k + 1, k + 70000]) for k in range(n)]) if tool[0] == "o" else b"".join(struct.pack("<d", k / 8) for k in range(n))
            ss.append(("giant-" + tool, rng.choice(flavours), [FILE("a", b), run(tool, ["a"])]))
        if tool in ("convert_blocked", "sort", "convert", "permute"):
            m, n = 262, 65536 + rng.randint(1, 40)
            at = rng.sample(range(m * m), n)
            w = W8 if tool == "sort" else W4
            es = [(a // m, a % m, struct.pack(ioscen.VT[w.vw], k / 4.0)) for k, a in enumerate(at)]
            es.sort(key=lambda e: e[1::-1] if tool == "convert" else e[:2])      # nearly in order already: TLC sorts by insertion
            for _ in range(12): es.insert(rng.randrange(n), es.pop(rng.randrange(n)))
            fs, args = three(rng, w, es, "rcv"), {"convert": ["r", "c", "v", "o", "bin"], "sort": ["r", "c", "v"], "convert_blocked": ["r", "c", "v", "z", "o"], "permute": ["r", "c", "p"]}[tool]
            fs += [FILE("z", W4.i(*[1] * m)), FILE("p", W4.i(*perm(rng, m)))]
            ss.append(("giant-" + tool, "opt", fs + [run(tool, args)]))
        if tool == "expanded":
            for k in range(4):
                z = [rng.choice([0, 1, 5, (1 << 27) - rng.randint(0, 9)]) for _ in range(rng.randint(3, 6))] + [rng.choice([(1 << 27) - 1, 1 << 27, (1 << 26) + 1])]
                rng.shuffle(z)
                fs, args, outs = case(rng, tool, 12, z)
                ss.append(("giant-%s-%d" % (tool, k), rng.choice(flavours), list(fs) + [("parents", (args,), {}), run(tool, args)]))
    return ss


def prints(rng, n, flavours):
    """Files of every kind that are listed."""
    ss = []
    for k in range(n):
        big = lambda: rng.choice([0, 1, 9, 65535, 65536, 99999999, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, rng.randrange(1 << 32), rng.randrange(100)])
        m = rng.choice([0, 1, 2, 3, 7, 30])
        if k % 150 < 3: m = rng.choice([rng.randint(1025, 1300), 1025, 1030])     # longer than a buffer
        es = [(big(), big(), struct.pack("<f", rng.choice([0.0, -0.0, .25, -.25, 8191.75, -8191.75, 4096.25, 65535.75, 32768.25, rng.randint(-262143, 262143) / 4, rng.randint(-40, 40) / 4, rng.randint(-1 << 20, 1 << 20) / 64, 1 / 64, rng.randint(-999, 999) / 64]))
               if rng.random() < .9 else ioscen.bits(rng, W4)) for _ in range(m)]
        mode = ["triples", "blocks", "vector", None][k % 4]
        f = name(rng, "file")
        if mode == "triples": b = W4.bin(big(), big(), es)
        elif mode == "vector": b = W4.i(*[big() for _ in range(m)])
        else: b = W4.i(big(), big(), m, big(), big(), big()) + b"".join(W4.i(big(), a, c) + v for a, c, v in es)
        if rng.random() < .2: b += bytes(rng.randrange(256) for _ in range(rng.choice([1, 4, 12])))
        args = [f] + ([mode] if mode else rng.choice([[], [], ["blocked"], ["vectors"], ["triples", "x"], ["trip"], ["vec"], ["block"], ["triples2"], ["v"], ["t"], [""], ["Triples"]]))
        ss.append(("prints-%d" % k, rng.choice(flavours), [FILE(f, b), ("parents", (args,), {}), run("pprint", args)]))
    return ss


def damage(rng, n, tools, flavours, every=1):
    """Every input missing, cut anywhere, too long, or out of range."""
    ss = []
    for k in range(n):
        tool, turn = tools[k % len(tools)], k // len(tools)
        fs, args, outs = case(rng, tool)
        while tool == "sort" and len(args) != (4, 2, 3, 1)[turn % 4]: fs, args, outs = case(rng, tool)
        st = list(fs) + [("parents", (args,), {})]
        for f in fs:
            nm, b = f[1]
            if tool != "pprint" or args[-1] != "vector":
                cuts = {0, len(b) - 1, len(b) - 4, len(b) - 8} | {rng.randrange(len(b) + 1) for _ in range(every)}
                for q in sorted(x for x in cuts if 0 <= x < len(b)):
                    st += [FILE(nm, b[:q]), run(tool, args)]
                st += [FILE(nm, b + bytes([rng.randrange(256) for _ in range(rng.choice([1, 3, 4, 8]))])), run(tool, args)]
            for _ in range(4):
                x = bytearray(b)
                if len(x) >= 4:
                    q = 4 * rng.randrange(len(x) // 4)
                    x[q:q + 4] = W4.i(rng.choice([0, 1, 65535, 70000, (1 << 31) - 1, 1 << 31, (1 << 32) - 2, (1 << 32) - 1, rng.randrange(40)]))
                st += [FILE(nm, bytes(x)), run(tool, args)]
            st += [("gone", (nm,), {}), run(tool, args), FILE(nm, b)]
        if tool in ("permute", "ipermute", "prepare"):      # not a permutation
            nm, b = [f[1] for f in fs if f[1][0] == args[2 if tool != "prepare" else 3]][0]
            p = list(struct.unpack("<%dI" % (len(b) // 4), b))
            for q in ([p[0]] * len(p), p[:-1], p + [len(p)], [x + 1 for x in p], p + p, p[:-1] + [(1 << 32) - 1]):
                st += [FILE(nm, W4.i(*q)), run(tool, args)]
            st += [FILE(nm, b)]
        if tool in ("convert_blocked", "expanded", "prepare"):
            nm, b = [f[1] for f in fs if f[1][0] == args[3 if tool != "prepare" else 4]][0]
            z = list(struct.unpack("<%dI" % (len(b) // 4), b))
            if tool != "prepare" and sum(z) > 1:     # only a column, or only a row, lies outside
                for r, q in (([0, 0], [0, sum(z)]), ([sum(z), 0], [0, 0]), ([sum(z) - 1, 0], [0, sum(z) - 1]), ([0, 0], [0, sum(z) + 1])):
                    st += [FILE(args[0], W4.i(*r)), FILE(args[1], W4.i(*q)), FILE(args[2], struct.pack("<2f", 1, 2)), run(tool, args)]
                st += list(fs)
            for q in (z[:-1], [0] * len(z), [max(0, z[0] - 1)] + z[1:], z + [1], z + [0], []):
                st += [FILE(nm, W4.i(*q)), run(tool, args)]
        st.append(run(tool, args))
        ss.append(("damage-%s-%d" % (tool, k), flavours[(turn + turn // 4) % len(flavours)], st))
    return ss


def long_damage(rng, flavours):
    """what is wrong comes after more elements than 16 bits count"""
    ss = []
    for k, tool in enumerate(("permute", "ipermute", "prepare")):
        m = 65537 + rng.choice([3, 100, 333])
        p, late = list(range(m)), lambda: rng.randrange(65537, m)
        for _ in range(50):
            a, b = rng.randrange(m), rng.randrange(m)
            p[a], p[b] = p[b], p[a]
        n = 5
        ix = [rng.randrange(m) for _ in range(n - 1)] + [m - 1]
        args = ["r", "c", "v", "p", "z", "o"] if tool == "prepare" else ["r", "c", "p"]
        st = [FILE("r", W4.i(*ix)), FILE("c", W4.i(*ix)), FILE("v", struct.pack("<%df" % n, *range(n))), FILE("z", W4.i(m)), FILE("p", W4.i(*p)), run(tool, args)]
        x, y = sorted({late() for _ in range(9)})[:2]
        twice, out = list(p), list(p)
        twice[y], out[late()] = twice[x], m
        for q in (twice, out): st += [FILE("p", W4.i(*q)), run(tool, args)]
        if tool != "prepare":
            il = [1] * m
            il[late()] = m
            st += [FILE("p", W4.i(*p)), FILE(args[k % 2], W4.i(*il)), run(tool, args)]
        ss.append(("long-damage-" + tool, flavours[k % len(flavours)], st))
    return ss


def faults(rng, tools, flavours, dense, big=1500):
    ss = []
    for tool in tools:
        for n in (0, big):
            fs, args, outs = case(rng, tool, n) if n else case(rng, tool)
            while tool in ("double2float", "one2zero") and not n and (len(args) < 3 or not all(f[1][1] for f in fs)): fs, args, outs = case(rng, tool)     # and not the last one
            if tool == "double2float" and n: fs = [FILE(a, struct.pack("<d", 1.25) * n) for a in args]
            if tool == "one2zero" and n: fs = [FILE(a, W4.i(*range(1, 3 * n))) for a in args]
            if not outs: continue
            st = list(fs) + [("parents", (args,), {}), run(tool, args, key="k"), ("clear", (), {})]
            todo = [(o, 0) for o in outs] + ([("/rows", 0), ("/cols", 0)] if tool == "prepare" else [])
            for o, nth in todo:
                for how in ("open", "close"):
                    st += [run(tool, args, fault="%s:%s:0" % (o.replace(":", "_"), how), key="k"), ("clear", (), {})]
                marks = {0, 1, 2, 4, 11, 30} | {rng.randrange(40 if not n else 16 * n) for _ in range(dense)}
                if n: marks |= {4095, 4096, 4097, 8192, 12288}
                for at in sorted(marks):
                    for how in ("full", "once"):
                        st += [run(tool, args, fault="%s:%s:%d" % (o, how, at), key="k"), ("clear", (), {})]
            for at in (0, 1, 100, 5000):
                st += [run(tool, args, limit=at, key="k"), ("clear", (), {})]
            ss.append(("fault-%s-%d" % (tool, n), rng.choice(flavours), st))
    return ss


def model(c, cfg, limit, flavours):
    """States of MC_Tools, given to the tools."""
    import os, tlaval
    f = c.path("toolstates")
    c.mc("MC_Tools", cfg, extra=["-dump", f])
    st = [s["x"] for s in tlaval.states(f + ".dump" if os.path.exists(f + ".dump") else f) if s["x"]["es"]]
    c.rng.shuffle(st)
    ss = []
    for k, s in enumerate(st[:limit]):
        es = [(e[1], e[3], bytes(e[4:])) for e in s["es"]]
        p = s["p"]
        fs = three(c.rng, W4, es, "rcv") + [FILE("p", W4.i(*p)), FILE("z", W4.i(*s["z"]))]
        tl = [("prepare", ["r", "c", "v", "p", "z", "o"]), ("convert_blocked", ["r", "c", "v", "z", "b"]), ("expanded", ["r", "c", "v", "z", "x"]), ("permute", ["r", "c", "p"]), ("ipermute", ["r", "c", "p"]), ("convert", ["r", "c", "v", "m", "all"])]
        st1 = list(fs)
        for t in ([tl[0]] + [tl[1 + k % 5]]):
            st1.append(run(*t))
        if k % 5 == 3:      # and back
            st1 += [run("permute", ["r", "c", "p"]), run("ipermute", ["r.permuted", "c.permuted", "p"])]
        ss.append(("model-%d" % k, flavours[k % len(flavours)], st1))
    return ss


def oversized(rng, tools, flavours, n):
    """Block sizes with a sum, an expansion or numbers of blocks near and beyond 32 bits"""
    ss = []
    for k in range(n):
        for tool in tools:
            if tool not in ("sort", "prepare", "convert_blocked", "expanded"): continue
            kind = rng.choice(["sum", "expand", "expand", "expand"] if k else ["ids"])
            if kind == "ids": z = [rng.choice([0, 1, 1, 2]) for _ in range(65536 + rng.choice([1, 2, 4465]))] + [3]
            elif kind == "sum":
                z = [(1 << 32) - rng.choice([1, 2, 7])] + [rng.choice([1, 2, 3, 7, 8, 1 << 31, (1 << 32) - 1]) for _ in range(rng.randint(1, 4))]
            else:
                e = rng.choice([27, 28, 29, 30, 30, 31])
                top = (1 << e) + rng.choice([-3, -1, 0, 1, 5])
                z = [top] + [rng.choice([0, 0, 1, 2, 5]) for _ in range(rng.choice([1, 2, 3, (1 << (32 - e)) - 2, (1 << (32 - e)) - 1, 1 << (32 - e)]))]
            if kind != "ids": rng.shuffle(z)
            m = 9 if tool == "prepare" else min(sum(z), (1 << 32) - 1)
            w = W8 if tool == "sort" else W4
            es = mat(rng, m, m, rng.choice([1, 3, 9]), w) + [(m - 1, m - 1, fval(rng, w, True))]
            args = {"sort": "rcvz", "prepare": "rcvpzo"}.get(tool, "rcvzo")
            fs = three(rng, w, es, "rcv") + [FILE("z", W4.i(*z))] + ([FILE("p", W4.i(*perm(rng, m)))] if tool == "prepare" else [])
            ss.append(("oversized-%s-%d" % (tool, k), rng.choice(flavours), fs + [run(tool, list(args))]))
    return ss


def large(rng, tools, flavours, n):
    ss = []
    for tool in tools:
        if tool in ("double2float", "one2zero", "pprint"): continue
        fs, args, outs = case(rng, tool, n)
        ss.append(("large-" + tool, rng.choice(flavours), list(fs) + [("parents", (args,), {}), run(tool, args, workers=4)]))
    return ss


def blocks(rng, tools, flavours, n):
    """very many blocks, and very large ones"""
    ss = []
    for k in range(n):
        for tool in tools:
            if tool not in ("sort", "prepare", "convert_blocked", "expanded"): continue
            if (k + len(tool)) % 2:
                z = [rng.choice([0, 1, 1, 1, 2, 3]) for _ in range(rng.choice([257, 300, 520, 700]))]
                fs, args, outs = case(rng, tool, rng.choice([60, 300]), z)
            else:
                if tool == "prepare": z = [rng.randint(0, 300), rng.choice([255, 256, 257, 511, 513, 1025])]
                else: z = [rng.choice([0, 1, 5, 65535, 65536, 65537, 70000, (1 << rng.randint(16, 24)) + rng.choice([-1, 0, 1, 2])]) for _ in range(rng.randint(1, 5))] + [3]
                rng.shuffle(z)
                fs, args, outs = case(rng, tool, rng.choice([3, 40]), z)
            ss.append(("blocks-%s-%d" % (tool, k), rng.choice(flavours), list(fs) + [("parents", (args,), {}), run(tool, args, workers=2)]))
    return ss
