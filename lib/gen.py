"""Generators of scenarios for the drivers: matrices, blockings, permutations."""


def shape(rng, hi):
    s = rng.randrange(10)
    r = lambda: rng.randint(1, hi)
    if s == 0: return 1, r()
    if s == 1: return r(), 1
    if s == 2: n = r(); return n, n
    if s == 3: n = 1 << rng.randint(0, max(0, hi.bit_length() - 1)); return n, n
    if s == 4: return r(), rng.randint(1, max(1, hi // 4))
    if s == 5: return rng.randint(1, max(1, hi // 4)), r()
    return r(), r()


def value(rng):
    return 0 if rng.random() < .08 else rng.choice([-8, -7, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 7, 8, 12])


def entries(rng, r, c, n, style=None):
    """n entries <<row, column, value>>, value in 1/4"""
    st = style if style is not None else rng.choice(["uni", "uni", "hotrow", "hotcol", "diag", "corner", "hotblock", "tworows", "last", "full", "rowruns"])
    es = []
    hr, hc = rng.randrange(r), rng.randrange(c)
    h2 = rng.randrange(r)
    b0, b1 = rng.randrange(r), rng.randrange(c)
    bw, bh = max(1, r // 4), max(1, c // 4)
    if st == "full":
        es = [(k // c, k % c) for k in range(min(n, r * c))]
    else:
        for k in range(n):
            if st == "uni": p = (rng.randrange(r), rng.randrange(c))
            elif st == "hotrow": p = (hr if rng.random() < .8 else rng.randrange(r), rng.randrange(c))
            elif st == "hotcol": p = (rng.randrange(r), hc if rng.random() < .8 else rng.randrange(c))
            elif st == "diag": d = rng.randrange(min(r, c)); p = (d, min(c - 1, max(0, d + rng.choice([-1, 0, 0, 1]))))
            elif st == "corner": p = rng.choice([(0, 0), (0, c - 1), (r - 1, 0), (r - 1, c - 1)])
            elif st == "hotblock":
                p = (min(r - 1, b0 + rng.randrange(bw)), min(c - 1, b1 + rng.randrange(bh))) if rng.random() < .85 else (rng.randrange(r), rng.randrange(c))
            elif st == "tworows": p = (rng.choice([hr, h2]), rng.randrange(c))
            elif st == "last": p = (r - 1 - min(r - 1, rng.randrange(3)), c - 1 - min(c - 1, rng.randrange(3)))
            else: p = (min(r - 1, k * r // max(1, n)), rng.randrange(c))
            es.append(p)
    o = rng.randrange(6)
    if o == 0: es.sort()
    elif o == 1: es.sort(key=lambda p: (p[1], p[0]))
    elif o == 2: es.sort(reverse=True)
    elif o == 3: rng.shuffle(es)
    if es and rng.random() < .25:          # repeated coordinates
        for _ in range(rng.randint(1, 3)):
            es[rng.randrange(len(es))] = es[rng.randrange(len(es))]
    return [(i, j, value(rng)) for i, j in es]


def matrix(rng, hi, nmax):
    r, c = shape(rng, hi)
    t = rng.random()
    n = 0 if t < .04 else 1 if t < .08 else rng.randint(1, min(nmax, 3 * r * c + 2))
    return r, c, entries(rng, r, c, n)


def thick(rng):
    """many entries per row, around the share from which a block is kept dense"""
    r, c = rng.choice([1, 2, 3, 5, 8]), rng.choice([7, 12, 20, 24, 40, 60])
    cells = [(i, j) for i in range(r) for j in range(c)]
    rng.shuffle(cells)
    es = cells[:max(1, int(r * c * rng.choice([.1, .2, .28, .3, .32, .5, .9, 1])))]
    if rng.random() < .4: es += rng.sample(es, min(len(es), 3))
    if rng.random() < .4: es.sort()
    return r, c, [(i, j, value(rng)) for i, j in es]


def stretch(rng, r, es, bits):
    """large odd values (entries and a y) for which y + A x stays exact in `bits` bits when
    the elements of x are small (see smallx)"""
    cnt = {}
    for e in es: cnt[e[0]] = cnt.get(e[0], 0) + 1
    k = max(cnt.values(), default=1)
    ymax, lim = ((1 << 27) - 1, (1 << 27) // k) if bits > 24 else ((1 << 22) - 1, (1 << 21) // k)
    def big(m):
        if rng.random() < .15: return rng.randint(-3, 3)
        v = rng.choice([m - 1, m // 2 + 1, rng.randint(max(1, m // 2), m)]) | 1
        return rng.choice([-1, 1]) * (v if v <= m else 1)
    return [(a, b, big(lim)) for a, b, _ in es], [big(ymax) for _ in range(r)]


ODD = [-2147483601, -2147483602, -2147483603]      # not a number, the infinities (Matrix.tla)


def odd(rng, es, y):
    """some values are no numbers"""
    p = rng.choice([.03, .1, .3])
    return ([e[:2] + (rng.choice(ODD) if rng.random() < p else e[2],) for e in es],
            [rng.choice(ODD) if rng.random() < p / 3 else v for v in y])


def smallx(rng, n):
    return [rng.choice([-8, -4, 4, 8, 4, 0] if rng.random() < .3 else [-8, -4, 4, 8]) for _ in range(n)]


def ent(es):
    return " ".join("%d %d %d" % e for e in es)


def vecx(rng, n):
    return [4 * rng.randint(-16, 16) for _ in range(n)]


def vecy(rng, n):
    return [rng.randint(-64, 64) for _ in range(n)]


def cmd(*a):
    return " ".join(map(str, a))


def src(name, kind, r, c, es):
    return cmd("SRC", name, kind, r, c, len(es), ent(es)).strip()


def vec(name, v):
    return cmd("VEC", name, *v)


def offsets(rng, n, most, limit=None):
    """block boundaries 0..n for at most `most` blocks, none larger than limit, sometimes empty ones"""
    k = rng.randint(1, max(1, min(most, n)))
    cuts = [rng.randint(0, n) if rng.random() < .25 else rng.randrange(1, n) if n > 1 else n for _ in range(k - 1)]
    if cuts and rng.random() < .2:
        cuts[0] = cuts[-1]
    o = sorted([0] + cuts + [n])
    if limit:
        res = [0]
        for x in o[1:]:
            while x - res[-1] > limit:
                res.append(res[-1] + limit)
            res.append(x)
        o = res
    # no more blocks than rows
    while len(o) - 1 > max(1, n):
        o.pop(rng.randrange(1, len(o) - 1))
    return o


def blk_o(ro, co):
    return cmd("o", len(ro) - 1, *ro) + " " + cmd(len(co) - 1, *co)


def blk_c(br, bc):
    return cmd("c", br, bc)


def constsize(rng, n, limit=None):
    b = rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 32, n, n + 1, max(1, n // 2), max(1, n // 3), 2 * n])
    if rng.random() < .5:
        b = rng.randint(1, max(1, n))
    if limit:
        # the last block takes the remainder: it can be nearly twice as large
        while b > 1 and constmax(n, b) > limit:
            b = (b + 1) // 2
    return b


def constmax(n, b):
    k = n // b
    if k == 0: return n
    return max(b, n - (k - 1) * b)


def blkmax(o):
    return max(b - a for a, b in zip(o, o[1:]))


def perm(rng, n):
    p = list(range(n))
    t = rng.randrange(7)
    if t > 4 and n > 5:     # most stay where they are, the ends among them
        a = rng.randint(1, n - 3)
        b = rng.randint(a + 2, n - 1)
        if t == 5: q = p[a:b]; rng.shuffle(q); p[a:b] = q
        else:
            q = sorted(rng.sample(range(1, n - 1), rng.randint(2, min(6, n - 2))))
            for i, j in zip(q, q[1:]): p[i], p[j] = p[j], p[i]
        return p
    if t == 0: pass
    elif t == 1: p.reverse()
    elif t == 2: k = rng.randrange(n); p = p[k:] + p[:k]
    elif t == 3 and n > 1:
        i, j = rng.randrange(n), rng.randrange(n)
        p[i], p[j] = p[j], p[i]
    else: rng.shuffle(p)
    return p
