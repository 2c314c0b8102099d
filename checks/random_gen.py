"""Random scripts for the random number driver."""
SEEDS = [0, 1, 2, 7, 20160212, 123456789, 65536]


def pad(w, n):
    return " ".join(map(str, list(w) + [0] * (n - len(w))))


def draw(r):
    t = r.choice(["raw", "raw", "unit", "uint", "ureal", "nreal", "nint"])
    if t in ("raw", "unit"): return "draw " + pad([t], 5)
    if t == "uint":
        a = r.choice([0, 1, -5, 3, 100, -100, 0, 0])
        return "draw " + pad([t, a, a + r.choice([0, 1, 2, 5, 10, 1000])], 5)
    if t == "ureal":
        a = r.choice([0, 8, -40, 3, 0])
        return "draw " + pad([t, a, a + r.choice([1, 8, 80, 800])], 5)
    m = r.choice([0, 40, 8, 81, -16])
    sd = r.choice([1, 4, 8, 24])
    w = r.choice([1, 2, 3])
    if t == "nreal": return "draw " + pad([t, m, sd, m - r.choice([w * sd, sd, 2]), m + r.choice([w * sd, sd, 3])], 5)
    c = (m // 8) - r.choice([0, 1, 2, 6])
    return "draw " + pad([t, m, max(sd, 4), c, max(c + r.choice([1, 2, 3, 8]), m // 8 + r.choice([0, 1]))], 5)


def dist(r, n):
    t = r.choice(["rfixed", "runi", "rnorm", "rpois", "rexp", "rbin", "ifixed", "iuni", "inorm", "ibinom", "inegb", "ipois", "iexp", "ibin"])
    bad = r.random() < 0.12
    if t in ("rfixed", "ifixed"): p = [r.choice([0, 3, 8, -8, 100])]
    elif t == "runi": a = r.choice([0, 8, -16, 4]); p = [a, a + r.choice([1, 8, 20, 80])]
    elif t == "iuni": a = r.choice([0, 1, -3, 10]); p = [a, a + r.choice([0, 1, 2, 5, 11])]
    elif t == "rnorm":
        m = r.choice([0, 4, 8, 40, 100]); sd = r.choice([1, 4, 8, 30]); w = r.choice([sd, 2 * sd, 3 * sd])
        lo, hi = r.choice([(m - w, m + w), (m - w, m + w), (m, m + w), (m - w, m), (m - 1, m + 9 * sd), (m - 3, m + 8)])
        if bad: lo, hi = r.choice([(lo, lo), (hi, lo)])
        p = [m, sd, lo, hi]
    elif t == "inorm":
        m = 8 * r.choice([0, 1, 3, 10]); sd = r.choice([4, 8, 30]); w = r.choice([1, 2, 5])
        lo, hi = r.choice([(m // 8 - w, m // 8 + w)] * 2 + [(m // 8, m // 8 + w), (m // 8 - w, m // 8)])
        if r.random() < 0.3: m += r.choice([1, 4, -3])
        if bad: lo, hi = r.choice([(lo, lo), (hi, lo)])
        p = [m, sd, lo, hi]
    elif t in ("rpois", "ipois"): p = [-r.choice([1, 8, 80]) if bad else r.choice([1, 4, 8, 20, 79, 120])]
    elif t in ("rexp", "iexp"): p = [-r.choice([1, 8]) if bad else r.choice([2, 4, 8, 16, 32])]
    elif t in ("ibinom", "inegb"):
        p = [r.choice([1, 1, 2, 5, 20]), r.randint(0, 8) if t == "ibinom" else r.randint(1, 7)]
        if bad: p = r.choice([[0, p[1]], [-1, p[1]], [p[0], -1], [p[0], 9]])
    else:
        p = [r.randint(0, 8), r.choice([0, 1, 8, -5, 20]), r.choice([0, 3, 16, -8])]
        if bad: p[0] = r.choice([-1, 9])
    return "dist %d %s" % (n, pad([t] + p, 5))


def calls(r, n):
    out, nd = [], 0
    for _ in range(n):
        p = r.random()
        if p < 0.4: out.append(draw(r))
        elif p < 0.6 or nd == 0:
            nd += 1
            out.append(dist(r, nd))
        elif p < 0.85: out.append("sample %d" % r.randint(1, nd))
        else: out.append("many %d %d" % (r.randint(1, nd), r.choice([16, 128, 256])))
    return out


def gen(r):
    segs = []
    first = r.random() < 0.5
    for _ in range(r.choice([2, 3, 4])):
        if segs and r.random() < 0.6:
            b = r.choice(segs)
            c = b[: r.randint(1, len(b))] + calls(r, r.randint(0, 3))
            for i, x in enumerate(c):      # a call after the common part may use an object of it
                pass
        else:
            c = (["draw raw 0 0 0 0"] * 3 if first else []) + calls(r, r.randint(2, 12))
        segs.append(c)
    out = []
    ss = [r.choice(SEEDS) for _ in range(r.choice([1, 1, 2]))]
    for i, c in enumerate(segs):
        out.append("%s %d %d" % ("seed" if i == 0 or r.random() < 0.8 else "reseed", r.choice(ss), r.choice([0, 1, 10000])))
        out += c
    return out


def scheduled(r, b):
    ss = [r.choice(SEEDS)]
    ss.append(r.choice([x for x in SEEDS if x != ss[0]]))
    while True:
        d = dist(r, 1)
        if int(d.split()[3]) >= 0 and d.split()[2] in ("runi", "iuni", "ipois", "rexp", "rpois", "iexp"): break
    m = {"raw": "draw raw 0 0 0 0", "unit": "draw unit 0 0 0 0", "sample": "sample 1"}
    while "uint" not in m or "nreal" not in m:
        x = draw(r)
        if x.split()[1] in ("uint", "nreal"): m[x.split()[1]] = x
    out = ["seed %d 0" % ss[0], d]
    for k, v in b:
        if k == "seed": out += ["%s %d 0" % (r.choice(["seed", "reseed"]), ss[v - 1]), d]
        else: out.append(m[v])
    return out
