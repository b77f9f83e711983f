"""Scenarios for the file layer: files are made here, what they mean is decided by
spec/FileFormats.tla."""
import struct, random

IT = {4: "<I", 8: "<Q"}
VT = {4: "<f", 8: "<d"}


class W:
    """Widths of one build."""
    def __init__(self, iw, vw):
        self.iw, self.vw = iw, vw

    def i(self, *xs):
        return b"".join(struct.pack(IT[self.iw], x) for x in xs)

    def v(self, x):
        return struct.pack(VT[self.vw], x) if isinstance(x, float) or isinstance(x, int) else x

    def bin(self, r, c, es):
        return self.i(r, c, len(es)) + self.i(*[e[0] for e in es]) + self.i(*[e[1] for e in es]) + b"".join(self.v(e[2]) for e in es)

    def three(self, es):
        return self.i(*[e[0] for e in es]), self.i(*[e[1] for e in es]), b"".join(self.v(e[2]) for e in es)

    def blk(self, r, c, es, ro, co):
        def at(o, x):
            return max(k for k in range(len(o) - 1) if o[k] <= x and o[k + 1] > x)
        nb = len(co) - 1
        es = sorted([(at(ro, e[0]) * nb + at(co, e[1]), e[0], e[1], e[2]) for e in es], key=lambda e: e[:3])
        return self.i(r, c, len(es), len(ro) - 1, nb, len({e[0] for e in es})) + b"".join(self.i(*e[:3]) + self.v(e[3]) for e in es)


def hx(b):
    return b.hex() or "-"


NUMS = ["1", "-2", "0.5", ".25", "3.", "-0", "0", "1e3", "1E+05", "2.5e-3", "+1.5", "1e-40", "3.4028234e38", "0.1", "123456789", "-7.75E2",
        "1e-45", "1.17549435e-38", "0000.5", "1.00000000000000000000001", "-1e-10", "16777217", "00012"]

# integers around the limits of 8, 16, 24, 32, 53 and 64 bits
INTS = [str(g * (2 ** k + d)) for k in (8, 15, 16, 24, 31, 32, 40, 53, 63, 64) for d in (-1, 0, 1) for g in (1, -1)] + ["12345678901234", "0", "1", "-1", "+5", "007", "999999999999999999999999"]


def entries(rng, r, c, n, lo=-40, hi=40):
    return [(rng.randrange(r), rng.randrange(c), rng.randint(lo, hi) / 4.0) for _ in range(n)]


def mmtext(rng, r, c, es, field="real", sym="general", plain=False, nums=None):
    """A Matrix Market file in a random layout."""
    def cs(w):
        return w if plain else rng.choice([w, w, w.upper(), w.capitalize(), "".join(rng.choice([a, a.upper()]) for a in w)])

    def sp():
        return " " if plain else rng.choice([" ", " ", "  ", "\t", " \t "])

    def end():
        return "\n" if plain or not crlf else "\r\n"
    crlf = not plain and rng.random() < 0.15
    out = "%%MatrixMarket" + sp() + cs("matrix") + sp() + cs("coordinate") + sp() + cs(field) + sp() + cs(sym) + (rng.choice(["", "", " "]) if not plain else "") + end()
    if not plain:
        for _ in range(rng.choice([0, 0, 1, 3])):
            out += rng.choice(["%", "% a comment", "%%", "%1 1 1.0", "% " + "x" * rng.choice([5, 200, 900])]) + end()
        if rng.random() < 0.2:
            out += end()
    out += ("" if plain else rng.choice(["", "", " "])) + sp().join(str(x) for x in (r, c, len(es))) + end()
    for k, e in enumerate(es):
        if not plain and rng.random() < 0.08:
            out += rng.choice(["", " ", "\t"]) + end()
        w = [str(e[0] + 1), str(e[1] + 1)]
        if not plain and rng.random() < 0.05:
            w[0] = "0" + w[0]
        if field != "pattern":
            if nums is not None:
                w.append(rng.choice(nums))
            elif field == "integer":
                w.append(str(int(e[2])))
            else:
                w.append(repr(float(e[2])))
        out += ("" if plain else rng.choice(["", "", " ", "\t"])) + sp().join(w) + ("" if plain else rng.choice(["", "", " "])) + end()
    if not plain and rng.random() < 0.2 and out.endswith("\n") and es:
        out = out.rstrip("\r\n")
    return out.encode()


def tri(es, skew):
    """one of two mirrored entries: the lower one, mostly"""
    kind = (len(es) + sum(e[0] for e in es)) % 5
    below = lambda q: kind < 3 or (kind == 4 and q % 2)
    return [(max(a, b), min(a, b), v) if below(q) else (min(a, b), max(a, b), v) for q, (a, b, v) in enumerate(es) if not (skew and a == b)]


def hist(hid, lines):
    return (hid, lines)


def rd(kind, names, target, ro=None, co=None):
    s = "READ %s %s %d %s" % (kind, target, len(names), " ".join(names))
    if ro is not None:
        s += " %d %s %d %s" % (len(ro), " ".join(map(str, ro)), len(co), " ".join(map(str, co)))
    return s


def both(kind, names, *a):
    t = {"mm": ["coo2", "coo3"], "bin": ["coo2", "coo3"], "suf": ["coo2", "coo3"], "csr": ["csr", "csr2"], "three": ["coo1", "coo2", "coo3"], "arr": ["-"], "blk": ["csbr", "csbr2", "cgbr"]}[kind]
    return [rd(kind, names, x, *a) for x in t]


def shape(rng, big=True):
    x = rng.random()
    if x < 0.15:
        return (1, rng.randint(1, 5)) if rng.random() < .5 else (rng.randint(1, 5), 1)
    if big and x > 0.8:
        return rng.choice([300, 65536, 65537, 1 << 24, (1 << 24) + 1, (1 << 31) - 1]), rng.choice([7, 256, 70000, (1 << 31) - 1])
    return rng.randint(1, 9), rng.randint(1, 9)


def offsets(rng, n):
    k = rng.randint(1, min(4, n))
    return sorted({0, n} | {rng.randrange(n) for _ in range(k - 1)})


# -------------------------------------------------------------- valid files
def meaning(rng, w, n):
    """Files as they should be, and kinds that are not supported."""
    hs = []
    for k in range(n):
        L = []
        r, c = shape(rng)
        es = entries(rng, r, c, rng.choice([0, 1, 2, 5, 9, 17]))
        for _ in range(3):
            field, sym = rng.choice(["real", "real", "integer", "pattern"]), rng.choice(["general", "general", "symmetric", "skew-symmetric"])
            r2, c2, e2 = r, c, es
            if sym != "general":
                m = max(r, c)
                r2 = c2 = m
                e2 = tri(es, sym[1] == "k")
                if sym[1] == "k" and field == "pattern":
                    field = "real"
            L.append("FILE m.mtx " + hx(mmtext(rng, r2, c2, e2, field, sym, nums=rng.choice([NUMS, INTS] if field == "real" else [INTS]) if field != "pattern" and rng.random() < .4 else None)))
            L += both("mm", ["m.mtx"]) + [rd("suf", ["m.mtx"], rng.choice(["coo2", "coo3"]))]
        if k % 4 == 2:      # nothing but short entries, and more than a buffer of them
            m = rng.choice([1, 3, 9])
            field, sym = rng.choice([("pattern", "general"), ("pattern", "symmetric"), ("integer", "general"), ("integer", "skew-symmetric")])
            e2 = [(rng.randrange(m), rng.randrange(m), float(rng.randint(0, 9))) for _ in range(rng.choice([26, 40, 150, 1100]))]
            txt = mmtext(rng, m, m, e2 if sym == "general" else tri(e2, sym[1] == "k"), field, sym, plain=True)
            L.append("FILE m.mtx " + hx(txt if rng.random() < .5 else txt[:-1]))
            L += both("mm", ["m.mtx"])
        ro = (1 << min(8 * w.iw, 53)) - 1
        r3, c3 = (r, c) if rng.random() < .7 else (ro, rng.choice([1 << 25, ro - 1]))
        e3 = [(rng.choice([e[0], r3 - 1, rng.randrange(r3)]), rng.choice([e[1], c3 - 1]), e[2]) for e in es]
        L.append("FILE a.bin " + hx(w.bin(r3, c3, e3)))
        L += both("bin", ["a.bin"]) + both("suf", ["a.bin"])
        e4 = sorted(es, key=lambda e: e[0])
        if r > 100000:      # the CSR readers allocate a pointer per row
            r = 4000
            e4 = sorted([(e[0] % r, e[1], e[2]) for e in es], key=lambda e: e[0])
        L.append("FILE s.bin " + hx(w.bin(r, c, e4)))
        L += both("csr", ["s.bin"])
        if e3:
            a, b, v = w.three([(min(e[0], ro - 1), min(e[1], ro - 1), e[2]) for e in e3])
            L += ["FILE r " + hx(a), "FILE c " + hx(b), "FILE v " + hx(v)] + both("three", ["r", "c", "v"])
        L.append("FILE z " + hx(w.i(*[rng.choice([0, 1, 7, 300, 1 << 20, ro]) for _ in range(rng.choice([0, 1, 2, 30]))])))
        L += both("arr", ["z"])
        n1, n2 = rng.randint(1, 12), rng.randint(1, 12)
        o1, o2 = offsets(rng, n1), offsets(rng, n2)
        L.append("FILE b.block " + hx(w.blk(n1, n2, entries(rng, n1, n2, rng.choice([0, 1, 3, 8, 20])), o1, o2)))
        L += [rd("blk", ["b.block"], t, o1, o2) for t in (["csbr", "csbr2", "cgbr"] if max(n1 * n2, 1) else [])]
        # names and kinds that are not supported
        good = mmtext(rng, 2, 2, [(0, 1, 1.0)], plain=True)
        gb = w.bin(2, 2, [(0, 1, 1.0)])
        nm, body = rng.choice([("x.txt", good), ("x", gb), ("x.BIN", gb), ("mtx", good), ("bin", gb), ("x.mtx.bin", gb), ("x.bin.mtx", good), (".bin", gb), (".mtx", good), ("xbin", gb), ("x.mtx2", good), ("a.b.bin", gb), ("x.bin.", gb), ("x.bi", gb), ("n", gb), ("x.bi2", gb), ("x.biN", gb), ("x.mtX", good), ("x.mt_", good), ("x_bin", gb), ("x.Mtx", good)])
        L += ["FILE %s %s" % (nm, hx(body))] + both("suf", [nm])
        bn = rng.choice(["%%MatrixMarket matrix coordinate complex general", "%%MatrixMarket matrix array real general", "%%MatrixMarket matrix coordinate real hermitian",
                         "%%MatrixMarket matrix coordinate complex hermitian", "%%MatrixMarket vector coordinate real general", "%MatrixMarket matrix coordinate real general", "%%MatrixMarket matrix coordinate real",
                         "%%matrixmarket matrix coordinate real general", "%%MatrixMarket matrix coordinate bool general", "%%MatrixMarket matrix coordinate real strange", "%%MatrixMarket matrix dense real general", "%%MatrixMarket matrix array pattern general", "%%MatrixMarket matrix coordinate pattern hermitian"])
        L += ["FILE u.mtx " + hx((bn + "\n2 2 1\n" + rng.choice(["1 2 3.5\n", "1 2 3.5 0\n", "1 2\n", "3.5\n1\n1\n1\n"])).encode())] + both("mm", ["u.mtx"])
        hs.append(hist("meaning%d" % k, L))
    return hs


def huge(rng, w, n):
    """files of more bytes, entries and lines than 16 bits can count"""
    hs = []
    for k in range(n):
        m = 65536 + rng.randint(1, 30)
        es = [(i % 70000, (i * 7) % 66000, i % 1000 / 4.0) for i in range(m)]
        a, b, v = w.three(es)
        hs.append(hist("huge%d-three" % k, ["FILE r " + hx(a), "FILE c " + hx(b), "FILE v " + hx(v), rd("three", ["r", "c", "v"], "coo2"), "FILE z " + hx(a), rd("arr", ["z"], "-")]))
        hs.append(hist("huge%d-bin" % k, ["FILE a.bin " + hx(w.bin(70000, 66000, es)), rd("suf", ["a.bin"], "coo3")]))
        txt = mmtext(rng, 9, 9, [(i % 9, i % 7, 1.0) for i in range(m)], "pattern", "general", plain=True)
        hs.append(hist("huge%d-mm" % k, ["FILE m.mtx " + hx(txt), rd("mm", ["m.mtx"], "coo2")]))
    return hs


# ------------------------------------------------------------ damaged files
def damage(rng, w, n, every=1):
    hs = []
    miss = ["READ mm coo2 1 no", "READ mm coo3 1 no", "READ bin coo2 1 no", "READ bin coo3 1 no", "READ suf coo2 1 no.bin", "READ suf coo3 1 no.mtx", "READ csr csr 1 no", "READ csr csr2 1 no", "READ arr - 1 no",
            "READ blk csbr 1 no 2 0 1 2 0 1", "READ blk csbr2 1 no 2 0 1 2 0 1", "READ blk cgbr 1 no 2 0 1 2 0 1"]
    for k in range(8):
        fs = ["FILE %s %s" % (x, hx(w.i(1, 2) if x != "v" else w.v(1.0) * 2)) for j, x in enumerate("rcv") if not k >> j & 1]
        hs.append(hist("missing%d" % k, fs + both("three", ["r", "c", "v"]) + (miss if k == 0 else [])))

    def cuts(name, b, reads):
        return [x for q in range(0, len(b), every) for x in ["FILE %s %s" % (name, hx(b[:q]))] + reads]

    def big(rng):
        return rng.choice([0, 1, 2, 3, 255, 256, (1 << 16), (1 << 31) - 1, 1 << 31, (1 << 32) - 1] + ([1 << 32, (1 << 62), (1 << 64) - 1, 1 << 63] if w.iw == 8 else []))
    for k in range(n):
        r, c = rng.randint(1, 5), rng.randint(1, 5)
        es = entries(rng, r, c, rng.choice([1, 2, 3]))
        so = sorted(es, key=lambda e: e[0])
        b = w.bin(r, c, so)
        tg = rng.choice(["coo2", "coo3"])
        L = cuts("a.bin", b, [rd(rng.choice(["bin", "suf"]), ["a.bin"], tg), rd("csr", ["a.bin"], "csr" if k % 2 else "csr2")])
        hs.append(hist("cutbin%d" % k, L))
        sym = rng.choice(["general", "symmetric", "skew-symmetric"])
        m = max(r, c)
        t = mmtext(rng, m, m, es if sym == "general" else tri(es, sym[1] == "k"), "real", sym, plain=rng.random() < .5)
        if len(t) > 260:
            t = mmtext(rng, m, m, es if sym == "general" else tri(es, sym[1] == "k"), "real", sym, plain=True)
        hs.append(hist("cutmm%d" % k, cuts("m.mtx", t, [rd("mm", ["m.mtx"], tg)])))
        o1, o2 = offsets(rng, r), offsets(rng, c)
        bb = w.blk(r, c, es, o1, o2)
        hs.append(hist("cutblk%d" % k, cuts("b.block", bb, [rd("blk", ["b.block"], ["csbr", "csbr2", "cgbr"][k % 3], o1, o2)])))
        a3 = w.three(es)
        L = ["FILE %s %s" % (x, hx(y)) for x, y in zip("rcv", a3)]
        for j, x in enumerate("rcv"):
            for q in range(len(a3[j])):
                L += ["FILE %s %s" % (x, hx(a3[j][:q])), rd("three", ["r", "c", "v"], ["coo1", "coo2", "coo3"][(k + q) % 3])]
            L += ["FILE %s %s" % (x, hx(a3[j] + a3[j][:rng.randint(1, 8)]))] + both("three", ["r", "c", "v"])
            L += ["FILE %s %s" % (x, hx(a3[j]))]
        hs.append(hist("cutthree%d" % k, L))
        z = w.i(*[rng.randrange(9) for _ in range(3)])
        hs.append(hist("cutarr%d" % k, cuts("z", z, both("arr", ["z"])) + ["FILE z " + hx(z + b"\1")] + both("arr", ["z"])))
        # headers and entries that contradict the rest
        L = []
        for _ in range(14):
            x = bytearray(b)
            how = rng.randrange(5)
            if how < 2:
                f = rng.randrange(3)
                x[f * w.iw:(f + 1) * w.iw] = w.i(big(rng))
            elif how == 2:
                f = 3 + rng.randrange(2 * len(es))
                x[f * w.iw:(f + 1) * w.iw] = w.i(rng.choice([r, c, max(r, c), r - 1, big(rng)]))
            elif how == 3:
                x[rng.randrange(len(x))] = rng.randrange(256)
            else:
                x += bytes(rng.randrange(256) for _ in range(rng.choice([1, w.vw, 2 * w.iw + w.vw])))
            L += ["FILE a.bin " + hx(bytes(x)), rd("bin", ["a.bin"], tg)]
            rr = struct.unpack(IT[w.iw], bytes(x[:w.iw]))[0]
            if rr < 1 << 20:
                L += both("csr", ["a.bin"])
        for _ in range(14):
            x = bytearray(bb)
            how = rng.randrange(8)
            if how >= 6:       # whole blocks, or single records, in another order
                z, first = 3 * w.iw + w.vw, 6 * w.iw
                recs = [bytes(x[first + q * z:first + (q + 1) * z]) for q in range(len(es))]
                blocks = sorted({q[:w.iw] for q in recs}, key=lambda q: [r[:w.iw] for r in recs].index(q))
                if how == 6:
                    a, b = rng.randrange(len(blocks)), rng.randrange(len(blocks))
                    blocks[a], blocks[b] = blocks[b], blocks[a]
                    recs = [r for q in blocks for r in recs if r[:w.iw] == q]
                else:
                    a, b = rng.randrange(len(recs)), rng.randrange(len(recs))
                    recs[a], recs[b] = recs[b], recs[a]
                x[first:] = b"".join(recs)
            elif how < 2:
                f = rng.randrange(6)
                x[f * w.iw:(f + 1) * w.iw] = w.i(rng.choice([big(rng), len(es) + 1, len(es) - 1, 2]))
            elif how < 4:
                q = rng.randrange(len(es)) * (3 * w.iw + w.vw) + 6 * w.iw + rng.randrange(3) * w.iw
                x[q:q + w.iw] = w.i(rng.choice([r, c, 0, 1, (len(o1) - 1) * (len(o2) - 1), big(rng)]))
            elif how == 4:
                x[rng.randrange(len(x))] = rng.randrange(256)
            else:
                x += bytes(rng.randrange(256) for _ in range(rng.choice([1, 3 * w.iw + w.vw])))
            L += ["FILE b.block " + hx(bytes(x)), rd("blk", ["b.block"], rng.choice(["csbr", "csbr2", "cgbr"]), o1, o2)]
        # read with other boundaries than it was written for
        p1 = offsets(rng, r + rng.choice([0, 0, 1]))
        L += ["FILE b.block " + hx(bb)] + both("blk", ["b.block"], p1, o2) + both("blk", ["b.block"], o1, offsets(rng, c))
        hs.append(hist("spoilt%d" % k, L))
        L = []
        txt = mmtext(rng, m, m, es if sym == "general" else tri(es, sym[1] == "k"), "pattern" if rng.random() < .2 and sym[1] != "k" else "real", sym, plain=True).decode()
        lines = txt.split("\n")[:-1]
        for _ in range(22):
            ls = list(lines)
            how = rng.randrange(9)
            q = rng.randrange(len(ls))
            ts = ls[q].split(" ")
            if how == 0:
                del ls[q]
            elif how == 1:
                ts[rng.randrange(len(ts))] = rng.choice(["0", "-1", "x", "1x", "1.5", "99999999999", "18446744073709551617", "4294967297", "2147483648", "%", "nan", "inf", "1e", "--1", "1e5", "", "1,5", "0x10", "+1", ".", "-", "e5", "4294967296"])
                ls[q] = " ".join(ts)
            elif how == 2:
                del ts[rng.randrange(len(ts))]
                ls[q] = " ".join(ts)
            elif how == 3:
                ls[q] = ls[q] + rng.choice([" 7", " x", " %", "7"])
            elif how == 4 and len(ls) > 2:
                a, b_, n_ = ls[1].split(" ")
                ls[1] = "%s %s %d" % (a, b_, int(n_) + rng.choice([1, -1, 2, 100, 2147483647 - 5]))
            elif how == 5 and len(ls) > 2:
                a, b_, n_ = ls[1].split(" ")
                ls[1] = "%d %s %s" % (max(0, int(a) - 1), b_, n_) if rng.random() < .5 else "%s %d %s" % (a, max(0, int(b_) - 1), n_)
            elif how == 6:
                ls.insert(q, rng.choice(["% late comment", "1 1 1", "", "1 1", "1"]))
            elif how == 7:
                x = list("\n".join(ls))
                x[rng.randrange(len(x))] = chr(rng.choice([32, 10, 48, 49, 57, 45, 46, 37, 120, 9]))
                ls = "".join(x).split("\n")
            else:
                ls = ls[:rng.randrange(len(ls) + 1)]
            L += ["FILE m.mtx " + hx("\n".join(ls).encode() + (b"\n" if rng.random() < .8 else b"")), rd("mm", ["m.mtx"], tg)]
        hs.append(hist("spoiltmm%d" % k, L))
    return hs


# ---------------------------------------------------------- write and read
def bits(rng, w):
    """Any finite value, as bytes."""
    e, m = (8, 23) if w.vw == 4 else (11, 52)
    while True:
        x = rng.random()
        if x < .3:
            ex = rng.choice([0, 0, 1, (1 << e) - 2, (1 << (e - 1)) - 1])
        else:
            ex = rng.randrange((1 << e) - 1)
        ma = rng.choice([0, 1, (1 << m) - 1, rng.getrandbits(m), rng.getrandbits(m)])
        v = (rng.getrandbits(1) << (e + m)) | (ex << m) | ma
        return struct.pack("<I" if w.vw == 4 else "<Q", v)


def wr(kind, form, src, names, fault="-", ro=None, co=None):
    s = "WRITE %s %s %s %d %s %s" % (kind, form, src, len(names), " ".join(names), fault)
    if ro is not None:
        s += " %d %s %d %s" % (len(ro), " ".join(map(str, ro)), len(co), " ".join(map(str, co)))
    return s


def mat(name, r, c, es):
    return "MAT %s %d %d %d %s" % (name, r, c, len(es), " ".join("%d %d %s" % (a, b, v.hex()) for a, b, v in es))


def roundtrip(rng, w, n):
    hs = []
    top = (1 << min(8 * w.iw, 53)) - 1      # the specification counts up to 2^53
    for k in range(n):
        r, c = shape(rng)
        es = [(rng.choice([0, r - 1, rng.randrange(r)]), rng.choice([0, c - 1, rng.randrange(c)]), bits(rng, w)) for _ in range(rng.choice([0, 1, 2, 7, 20, 60]))]
        L = [mat("A", r, c, es)]
        for form in ("coo2", "coo3"):
            L += [wr("mm", form, "A", ["m.mtx"])] + both("mm", ["m.mtx"])
            L += [wr("bin", form, "A", ["a.bin"])] + both("bin", ["a.bin"]) + [rd("suf", ["a.bin"], form)]
            L += [wr("three", form, "A", ["r", "c", "v"])] + (both("three", ["r", "c", "v"]) if es else [])
        R, C = rng.choice([top, top - 1, (top + 1) // 2]), rng.choice([top, 5])
        big = [(rng.choice([0, R - 1, rng.randrange(R)]), rng.choice([0, C - 1]), bits(rng, w)) for _ in range(6)]
        L += [mat("B", R, C, big)]
        for form in ("coo2", "coo3"):
            L += [wr("bin", form, "B", ["b.bin"])] + both("bin", ["b.bin"]) + [wr("three", form, "B", ["r2", "c2", "v2"])] + both("three", ["r2", "c2", "v2"])
        so = sorted(es, key=lambda e: e[0])
        if r < 100000:
            L += [mat("S", r, c, so), wr("bin", "coo3", "S", ["s.bin"])] + both("csr", ["s.bin"])
        L += ["ARR Z " + " ".join(str(rng.choice([0, 1, 5, top, rng.randrange(top)])) for _ in range(rng.choice([0, 1, 3, 40]))), wr("arr", "-", "Z", ["z"])] + both("arr", ["z"])
        n1, n2 = rng.randint(1, 14), rng.randint(1, 14)
        o1, o2 = offsets(rng, n1), offsets(rng, n2)
        be = [(rng.randrange(n1), rng.randrange(n2), bits(rng, w)) for _ in range(rng.choice([0, 1, 5, 30]))]
        L += [mat("K", n1, n2, be), wr("blk", "coo3", "K", ["k.block"], "-", o1, o2)]
        L += both("blk", ["k.block"], o1, o2)
        # half of the files replace others, longer or shorter
        if k % 2: L = [x for y in L for x in ((["OLD %d" % rng.choice([0, 1, 8, 300, 5000, 20000])] if y.startswith("WRITE") and rng.random() < .4 else []) + [y])]
        hs.append(hist("round%d" % k, L))
    return hs + counts(rng, w, max(3, n // 6))


def huge_trips(rng, w, n):
    """matrices with more entries than 16 bits can count, through every format"""
    hs = []
    for k in range(n):
        m = 65536 + rng.randint(1, 30)
        A = mat("A", 600, 700, [(i // 120, (i * 7) % 700, struct.pack(VT[w.vw], i % 23 / 4.0)) for i in range(m)])     # few values: TLC looks numbers up one by one
        for nm, ws, rs in (("bin", [wr("bin", "coo2", "A", ["a.bin"])], [rd("bin", ["a.bin"], "coo3"), rd("csr", ["a.bin"], "csr")]),
                           ("three", [wr("three", "coo3", "A", ["r", "c", "v"])], [rd("three", ["r", "c", "v"], "coo2")]),
                           ("mm", [wr("mm", "coo3", "A", ["m.mtx"])], [rd("mm", ["m.mtx"], "coo2")]),
                           ("blk", [wr("blk", "coo3", "A", ["k.block"], "-", [0, 300, 600], [0, 100, 700])], [rd("blk", ["k.block"], "csbr", [0, 300, 600], [0, 100, 700])])):
            hs.append(hist("huge%d-%s" % (k, nm), [A] + ws + rs))
        hs.append(hist("huge%d-arr" % k, ["ARR Z " + " ".join(str(i) for i in range(m)), wr("arr", "-", "Z", ["z"]), rd("arr", ["z"], "-")]))
    return hs


def counts(rng, w, n):
    """numbers of entries around powers of two and buffer sizes"""
    hs, sizes = [], [256, 1024, 255, 512, 257, 64, 1000, 128, 2048, 4096, 511, 513, 1023, 1025, 2000, 341, 342, 682, 683, 1365, 1366]
    off = rng.randrange(len(sizes))
    for k in range(n):
        m = sizes[0] if k == 0 else sizes[(off + k) % len(sizes)]
        r, c = rng.choice([(m, m), (7, 300), (300, 5), (40, 40)])
        es = [(rng.randrange(r), rng.randrange(c), bits(rng, w)) for _ in range(m)]
        L = [mat("A", r, c, es)]
        fm = rng.choice(["coo2", "coo3"])
        if m <= 1100: L += [wr("mm", fm, "A", ["m.mtx"]), rd("mm", ["m.mtx"], fm)]
        for form in ("coo2", "coo3"):
            L += [wr("bin", form, "A", ["a.bin"]), rd("bin", ["a.bin"], form), wr("three", form, "A", ["r", "c", "v"]), rd("three", ["r", "c", "v"], form)]
        L += [mat("S", r, c, sorted(es, key=lambda e: e[0])), wr("bin", "coo2", "S", ["s.bin"])] + both("csr", ["s.bin"])
        L += ["ARR Z " + " ".join(str(rng.randrange(1 << 30)) for _ in range(m)), wr("arr", "-", "Z", ["z"])] + both("arr", ["z"])
        n1, n2 = min(r, 60), min(c, 60)
        o1, o2 = offsets(rng, n1), offsets(rng, n2)
        be = [(e[0] % n1, e[1] % n2, e[2]) for e in es]
        if m <= 600: L += [mat("K", n1, n2, be), wr("blk", "coo3", "K", ["k.block"], "-", o1, o2)] + both("blk", ["k.block"], o1, o2)
        hs.append(hist("count%d" % k, L))
    return hs


def faults(rng, w, dense, size):
    """Every way of failing, at every byte that matters."""
    hs = []
    r = c = 50
    for size_name, n in (("small", 3), ("large", size)):
        es = [(rng.randrange(r), rng.randrange(c), struct.pack(VT[w.vw], rng.randint(-99, 99) / 8.0)) for _ in range(n)]
        o1, o2 = [0, 13, 20, 50], [0, 25, 50]
        arr = [rng.randrange(1 << 20) for _ in range(n if n == 3 else 3 * n)]
        jobs = [("mm", f, ["m.mtx"], 36 + 9 * n) for f in ("coo2", "coo3")] + [("bin", f, ["a.bin"], 3 * w.iw + n * (2 * w.iw + w.vw)) for f in ("coo2", "coo3")]
        jobs += [("three", f, ["r", "c", "v"], n * w.iw) for f in ("coo2", "coo3")] + [("arr", "-", ["z"], len(arr) * w.iw), ("blk", "coo3", ["k.block"], 6 * w.iw + n * (3 * w.iw + w.vw))]
        for kind, form, names, total in jobs:
            L = ["ARR A " + " ".join(map(str, arr))] if kind == "arr" else [mat("A", r, c, es)]
            o = (o1, o2) if kind == "blk" else ()
            L.append(wr(kind, form, "A", names, "-", *o))
            if len(hs) % 2: L.append("OLD %d" % rng.choice([3, total, total + 100, 20000]))
            for which in range(len(names)):
                for how in ("nodir:0", "isdir:0", "devfull:0", "close:0"):
                    L.append(wr(kind, form, "A", names, "%d:%s" % (which, how), *o))
                marks = {0, 1, total - 1, total, total + 20, total // 2, total - 4}
                for b in (512, 1024, 4096, 8192, 12288, 16384):
                    marks |= {b - 1, b, b + 1, b + 3}
                marks |= {rng.randrange(total) for _ in range(dense)}
                if n == 3 and dense > 10:
                    marks |= set(range(total + 1))
                for at in sorted(x for x in marks if 0 <= x <= total + 20):
                    for how in ("full", "once", "limit"):
                        if how == "limit" and which > 0:
                            continue
                        L.append(wr(kind, form, "A", names, "%d:%s:%d" % (which, how, at), *o))
            L.append(wr(kind, form, "A", names, "-", *o))
            hs.append(hist("fault-%s-%s-%s" % (kind, form, size_name), L))
    return hs


# ------------------------------------------- states of MC_FileFormats, replayed
def model_cases(c, cfg, whole):
    import os, tlaval
    f = c.path("iostates")
    c.mc("MC_FileFormats", cfg, extra=["-dump", f])
    st = tlaval.states(f + ".dump" if os.path.exists(f + ".dump") else f)
    os.unlink(f + ".dump" if os.path.exists(f + ".dump") else f)
    return [s for s in st if (s["x"][0] == "whole") == whole]


def model_histories(rng, st, limit):
    rng.shuffle(st)
    st = st[:limit]
    hs = []
    for g in range(0, len(st), 50):
        L = []
        for s in st[g:g + 50]:
            k, fs = s["k"], [bytes(f) for f in s["files"]]
            ns = ["r", "c", "v"] if k == "three" else [{"bin": "a.bin", "csr": "a.bin", "blk": "b.block"}.get(k, "m.mtx")]
            L += ["FILE %s %s" % (n, hx(b)) for n, b in zip(ns, fs)]
            if k == "blk":
                r, cc = s["m"]["r"], s["m"]["c"]
                L += both("blk", ns, list(range(r + 1)), [0, 1] if cc == 1 else [0, 1, cc])
            else:
                L += both("mm" if k.startswith("mm") else k, ns)
        hs.append(hist("model%d" % (g // 50), L))
    return hs
