"""Sessions for the measuring programs, and calls of the statistics."""
import struct
import ioscen

W4 = ioscen.W(4, 4)
FILE = lambda n, b: ("file", (n, b), {})


def cut(rng, n):
    """sizes of blocks that cover n indices"""
    k = rng.randint(1, min(n, rng.choice([1, 2, 3, 5, 9])))
    cuts = sorted(rng.choice([0, n, rng.randint(0, n), rng.randint(0, n)]) for _ in range(k - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [n])]


def matrix(rng, sq=False):
    def d():
        return rng.choice([1, 2, 3, 5, 8, 9, 16, 17, 31, 32, 33, 40, 64, 65, 100, 128, 129, 200])
    r = d()
    c = r if sq or rng.random() < .5 else d()
    n = rng.choice([0, 1, 2, 5, 20, 60, 150])
    es = []
    st = rng.random()
    for _ in range(n):
        if st < .2 and es and rng.random() < .5: i, j = rng.choice(es)[:2]
        elif st < .4: i, j = rng.choice([0, r - 1]), rng.randrange(c)
        elif st < .6: i = rng.randrange(r); j = min(c - 1, max(0, i + rng.randint(-2, 2)))
        else: i, j = rng.randrange(r), rng.randrange(c)
        es.append((i, j, rng.randint(-40, 40) / 4.0))
    return r, c, es


def mfile(rng, r, c, es):
    if rng.random() < .5: return "m.bin", W4.bin(r, c, es)
    return "m.mtx", ioscen.mmtext(rng, r, c, es, nums=["%g" % e[2] for e in es]).encode() if False else mm(rng, r, c, es)


def mm(rng, r, c, es):
    kind = rng.choice(["general", "general", "pattern"])
    if kind == "pattern":
        return ("%%%%MatrixMarket matrix coordinate pattern general\n%% c\n%d %d %d\n" % (r, c, len(es)) + "".join("%d %d\n" % (e[0] + 1, e[1] + 1) for e in es)).encode()
    if r == c and rng.random() < .3:
        lo = [(max(e[0], e[1]), min(e[0], e[1]), e[2]) for e in es]
        return ("%%%%MatrixMarket matrix coordinate real symmetric\n%d %d %d\n" % (r, c, len(lo)) + "".join("%d %d %g\n" % (e[0] + 1, e[1] + 1, e[2]) for e in lo)).encode()
    return ("%%%%MatrixMarket matrix coordinate real general\n%d %d %d\n" % (r, c, len(es)) + "".join("%d %d %g\n" % (e[0] + 1, e[1] + 1, e[2]) for e in es)).encode()


BLOCKED = ["csbr", "csbr2", "cgbr", "cgbr2", "partition", "partition"]


def call(rng, name, args, **kw):
    kw.setdefault("workers", rng.choice([1, 2, 2, 3, 4]))
    kw.setdefault("clock", rng.choice(["100:4000:%d", "50:400:%d", "1000:900000:%d", "300:310:%d"]) % rng.getrandbits(30))
    return ("prog", (name, args), kw)


def good(rng):
    steps = []
    for p in rng.sample(["csr", "csr2", "cswr", "bench"] + BLOCKED + ["pbench", "pbench"], 5):
        r, c, es = matrix(rng, p == "pbench")
        if p == "partition" and rng.random() < .6:      # one heavy block-row
            k = rng.randrange(r)
            es += [(k, rng.randrange(c), 1.0) for _ in range(80)]
        n, b = mfile(rng, r, c, es)
        steps.append(FILE(n, b))
        if p == "pbench":
            q = list(range(r))
            rng.shuffle(q)
            steps.append(FILE("perm", W4.i(*q)))
            steps.append(call(rng, p, [n, "perm"]))
        elif p in BLOCKED and rng.random() < .65:
            steps += [FILE("rs", W4.i(*cut(rng, r))), FILE("cs", W4.i(*cut(rng, c)))]
            steps.append(call(rng, p, [n, "rs", "cs"]))
        elif p == "cswr" and rng.random() < .6:
            steps.append(call(rng, p, [n, str(rng.choice([1, 2, 3, 7, 31, 32, 33, 64, 255, 256]))]))
        else:
            steps.append(call(rng, p, [n]))
    return steps


def bad(rng):
    r, c, es = matrix(rng, True)
    n, b = mfile(rng, r, c, es)
    b2 = W4.bin(r, c, es)
    z, q = cut(rng, r), list(range(r))
    rng.shuffle(q)
    steps = [FILE(n, b), FILE("cut.bin", b2[:rng.randrange(len(b2))]), FILE("m.xyz", b), FILE("rs", W4.i(*z)), FILE("perm", W4.i(*q)),
             FILE("less", W4.i(*(z[:-1] + [z[-1] - 1])) if z[-1] else W4.i(*z)[:-4]), FILE("more", W4.i(*(z + [rng.choice([1, 5, 1 << 15])]))), FILE("odd", W4.i(*z)[:-1]), FILE("none", b""),
             FILE("pless", W4.i(*q)[:-4]), FILE("pmore", W4.i(*(q + [r]))), FILE("pdup", W4.i(*(q[:-1] + [q[0]]))), FILE("pbig", W4.i(*(q[:-1] + [rng.choice([r, r + 1000000, (1 << 32) - 1])])))]
    for _ in range(7):
        x = rng.random()
        p = rng.choice(["csr", "csr2", "cswr", "bench", "pbench"] + BLOCKED)
        ok = [n, "perm"] if p == "pbench" else [n]
        if x < .15: a = [rng.choice(["cut.bin", "m.xyz", "missing.mtx", "missing.bin", "cut.bin"])] + ok[1:]
        elif x < .25: a = [] if rng.random() < .5 else ok + ["rs"] if p in BLOCKED else ok[:1] + ["7", "rs"] if p == "cswr" else []
        elif x < .65:
            p = rng.choice(BLOCKED)
            a = [n] + rng.choice([["rs", rng.choice(["less", "more", "odd", "none", "missing"])], [rng.choice(["less", "more", "odd", "none", "missing"]), "rs"]])
        else:
            p = "pbench"
            a = [n, rng.choice(["pless", "pmore", "pdup", "pbig", "odd", "missing", "none"])]
        steps.append(call(rng, p, a))
    return steps


def sessions(c, n):
    return [("good-%d" % k, ["asan", "opt"][k % 2], good(c.rng)) for k in range(n)] + [("bad-%d" % k, ["asan", "opt"][k % 2], bad(c.rng)) for k in range(n // 2)]


# ------------------------------------------------------------------- calls
def types(rng):
    return rng.choice("fd") + " " + rng.choice(["u32", "u64", "i32"])


def compare(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 5, 8, 9, 31, 100]) if n is None else n
    big = rng.choice([40, 40, 4000, 2000000])
    a = [rng.choice([0, 0, rng.randint(-big, big)]) for _ in range(n)]
    b = list(a)
    if n and rng.random() < .8:
        for k in rng.choice([[0], [n - 1], rng.sample(range(n), rng.randint(1, n)), [rng.randrange(n)]]):
            b[k] = a[k] + rng.choice([1, -1, rng.choice([-1, 1]) * rng.randint(1, big), -2 * a[k], 4, -4])
    if rng.random() < .5: a, b = b, a
    return "CHECK %s %d %s %s" % (types(rng), n, " ".join(map(str, a)), " ".join(map(str, b)))


def stat(rng, n=None):
    k = rng.choice(["MEAN", "MEDIAN", "STD"])
    n = n or rng.choice([1, 2, 3, 4, 5, 8, 9, 12, 30])
    top = 60 if n <= 12 else 12
    if k != "STD": top = rng.choice([40, 4000])
    st = rng.random()
    v = [rng.randint(-top, top) for _ in range(n)]
    if st < .2: v = [v[0]] * n
    elif st < .4: v = [abs(x) for x in v]
    elif st < .5: v.sort()
    elif st < .6: v.sort(reverse=True)
    ty = types(rng)
    if rng.random() < .25 and n <= 12:      # close together, far from zero
        base = rng.choice([-1, 1]) * (rng.randint(200000, 260000) if ty[0] == "f" else rng.choice([1 << 18, 1 << 29, (1 << 30) + 5, rng.randint(100000, 1 << 30)]))
        return "%s %s %d %s" % (k, ty, n, " ".join(str(base + rng.choice([1, 1, 1, 1, rng.randint(-3, 3)]) * x) for x in [0] + [rng.randint(-9, 9) for _ in v[1:]]))
    return "%s %s %d %s" % (k, ty, n, " ".join(map(str, v)))


def times(rng, n=None):
    n = n or rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 20, 51])
    st = rng.random()
    top = rng.choice([3, 30, 400])
    t = [rng.randint(1, top) for _ in range(n)]
    if st < .2: t.sort()
    elif st < .4: t.sort(reverse=True)
    elif st < .5: t = [t[0]] * n
    elif st < .6: t = [t[0]] * (n - 1) + [max(t) + 100]
    u = rng.choice([1, 1, 10, 100, 10000])
    if top < 100: u = rng.choice([1, 10, 100, 10000, 100000, 100000])     # more entries than 32 bits can count
    a = rng.choice([rng.randint(0, 1000), rng.randint(1, 400000), 400000])
    over = rng.choice([2, 37, 1000, 40000, 300000, 1000000]) // len(t) if rng.random() < .03 else 0
    return "TIMES %s%s %s %d %d %s" % (rng.choice(["verbose", "csv"]), "*%d" % over if over > 1 else "", rng.choice(["CSR", "GSB", "M2"]), a, u, " ".join(map(str, t)))


def calls(rng, n):
    return [rng.choice([compare, compare, stat, stat, times])(rng) for _ in range(n)]
