"""Scripts for the content driver."""
COMPS = [("mass", [1, 3, 0, 0, 0]), ("atom", [2, 6, 1, 0, 7]), ("mass", [0, 0, 4, 12, 0]), ("atom", [1, 0, 0, 0, 2])]
WS = [[1, 0, 0, 0, 0], [1, 4, 0, 0, 0], [2, 0, 1, 0, 1], [0, 0, 1, 2, 0]]
VX = [10, 20, 30, 50, 71, 72, 100, 200, 300, 400, 500, 1000, 2000, 5000, 8000, 9000, 9900]


def comp(rng, i, basis, w):
    """now and then with a total close to, but not quite, the quantity it will be used for"""
    q = rng.choice([1000, 1600, 2400, 4800, 7200, 9600])
    tot = rng.choice([0, 0, 100000, q, q * 997 // 1000, q * 1003 // 1000, q * 1009 // 1000, 1])
    return "comp %d %s %s %d" % (i, basis, " ".join(map(str, w)), tot)


def weights(rng, n=16):
    ks = rng.sample(range(5), rng.choice([1, 2, 2, 3, 4, 5]))
    w = [0] * 5
    for k in ks:
        w[k] = 1
    for _ in range(rng.choice([0, 3, n - 5])):
        w[rng.choice(ks)] += 1
    return w


def looks(rng, live):
    L = []
    for i in sorted(live):
        L.append("look %d %d" % (i, rng.randrange(32)))
        L.append("amt %d %d %s" % (i, rng.randrange(2), " ".join(map(str, rng.choice([rng.choice(WS), weights(rng, 8)])))))
    a, b = rng.choice(sorted(live)), rng.choice(sorted(live))
    L.append("eq %d %d %d" % (a, b, rng.choice([0, 1, 100, 1000, 5000])))
    return L


def enr(rng):
    t = rng.choice([10, 20, 30])
    f = rng.choice([50, 71, 72, 100, 300])
    p = rng.choice([x for x in VX if f <= x <= 9000])
    return "enr %d %d %d %d" % (f, p, t, rng.choice([1, 1, 2, 3, 5, 10]))


def vf(rng):
    return "vf %d" % rng.choice(VX + [-1, -300, 10000, 10001, 15000])


def scheduled(rng, b):
    c, d = b[0]
    L = ["scale %d" % rng.choice([1, 10, 1000, 100000])] + [comp(rng, i + 1, *x) for i, x in enumerate(COMPS)] + ["mk 1 %d 4800" % c, "mk 2 %d 9600" % d]
    q = {1: 4800, 2: 9600}
    for x in b[1:]:
        if x[0] == "abs":
            L.append("abs 1 2"); q[1] += q.pop(2)
        elif x[0] == "abs3":
            L.append("abs 1 3"); q[1] += q.pop(3)
        elif x[0] == "ext":
            n = q[x[1]] // x[2]
            L.append("ext %d 3 %d" % (x[1], n)); q[x[1]] -= n; q[3] = n
        else:
            L.append("trans %d %d" % (x[1], x[2]))
        if rng.random() < .3:
            L += looks(rng, q)
    return L + looks(rng, q) + [enr(rng), vf(rng)]


def gen(rng):
    L, q, n, nc = ["scale %d" % rng.choice([1, 1, 10, 1000, 100000])], {}, 0, rng.choice([1, 2, 3])
    for i in range(1, nc + 1):
        L.append(comp(rng, i, rng.choice(["mass", "atom"]), weights(rng)))

    def mk():
        nonlocal n
        n += 1
        q[n] = rng.choice([1000, 1600, 4800, 7200])
        L.append("mk %d %d %d" % (n, rng.randint(1, nc), q[n]))
    mk()
    for _ in range(rng.choice([3, 6, 10])):
        o = rng.random()
        if o < .25:
            mk()
        elif o < .45 and len(q) > 1:
            a, b = rng.sample(sorted(q), 2)
            if q[a] + q[b] <= 20000:
                L.append("abs %d %d" % (a, b)); q[a] += q.pop(b)
        elif o < .65:
            a = rng.choice(sorted(q))
            if q[a] >= 2000:
                n += 1
                k = rng.randrange(1000, q[a] - 999)
                L.append("ext %d %d %d" % (a, n, k)); q[a] -= k; q[n] = k
        elif o < .8:
            L.append("trans %d %d" % (rng.choice(sorted(q)), rng.randint(1, nc)))
        else:
            L += looks(rng, q)
    return L + looks(rng, q) + [enr(rng), enr(rng), vf(rng), vf(rng)]
