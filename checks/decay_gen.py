"""Scripts for the decay driver."""
COMPS = {1: [16, 0, 0, 0, 0, 0], 2: [0, 0, 16, 0, 0, 0], 3: [8, 0, 4, 0, 0, 4], 4: [0, 0, 8, 8, 0, 0]}


def comp(i, w):
    return "comp %d %s" % (i, " ".join(map(str, w)))


def scheduled(rng, b):
    mode, c = b[0]
    L = ["init %s %d" % (mode, rng.randint(0, 2))] + [comp(i, w) for i, w in COMPS.items()] + ["mk 1 %d 16" % c]
    live = {1}
    for x in b[1:]:
        if x[0] == "t":
            L.append("t")
        elif x[0] == "dec":
            L.append("dec %d -1" % x[1])
        elif x[0] == "look":
            L.append("look %d" % x[1])
        elif x[0] == "trans":
            L.append("trans %d %d" % (x[1], x[2]))
        elif x[0] == "ext":
            L.append("ext 1 2 4")
            live.add(2)
        elif x[0] == "abs":
            L.append("abs 1 2")
            live.discard(2)
    return L + ["look %d" % i for i in sorted(live)] + ["t"] + ["dec %d -1" % i for i in sorted(live)] + ["look %d" % i for i in sorted(live)]


def weights(rng):
    w = [0] * 6
    ks = rng.sample(range(6), rng.choice([1, 2, 2, 3, 4]))
    if rng.random() < .6 and 0 not in ks:
        ks.append(0)
    for _ in range(16):
        w[rng.choice(ks)] += 1
    return w


def gen(rng):
    mode = rng.choice(["manual", "manual", "lazy", "lazy", "never"])
    L = ["init %s %d" % (mode, rng.randint(0, 2))]
    cs, ms, now, nm = [], {}, 0, 0

    def newcomp():
        cs.append(len(cs) + 1)
        L.append(comp(cs[-1], weights(rng)))

    def mk():
        nonlocal nm
        nm += 1
        q = rng.choice([1, 4, 8, 16, 40, 64])
        L.append("mk %d %d %d" % (nm, rng.choice(cs), q))
        ms[nm] = q
    newcomp()
    if rng.random() < .7:
        newcomp()
    mk()
    for _ in range(rng.choice([8, 14, 20])):
        o = rng.choice(["t"] * 4 + ["dec"] * 4 + ["look"] * 3 + ["ext", "abs", "cln", "trans", "mk", "comp", "cdec", "cdec", "clook", "udec", "fut", "bdec"])
        i = rng.choice(sorted(ms))
        if o == "t":
            for _ in range(rng.choice([1, 1, 2, 3])):
                L.append("t")
                now += 1
        elif o == "dec":
            L.append("dec %d %d" % (i, rng.choice([-1, now])))
        elif o == "fut" and mode == "manual":
            L.append("dec %d %d" % (i, now + rng.randint(1, 3)))
        elif o == "bdec":
            L.append("bdec %d" % rng.choice([-1, now]))
        elif o == "look":
            L.append("look %d" % i)
        elif o == "ext" and ms[i] > 1:
            q = rng.randint(1, ms[i] - 1)
            nm += 1
            L.append("ext %d %d %d" % (i, nm, q))
            ms[nm] = q
            ms[i] -= q
        elif o == "abs" and len(ms) > 1:
            j = rng.choice([k for k in ms if k != i])
            if ms[i] + ms[j] <= 200:
                L.append("abs %d %d" % (i, j))
                ms[i] += ms.pop(j)
        elif o == "cln":
            nm += 1
            L.append("cln %d %d" % (i, nm))
            ms[nm] = ms[i]
        elif o == "trans":
            L.append("trans %d %d" % (i, rng.choice(cs)))
        elif o == "mk":
            mk()
        elif o == "comp" and len(cs) < 6:
            newcomp()
        elif o == "cdec":
            c = rng.choice(cs)
            cs.append(len(cs) + 1)
            L.append("cdec %d %d %d %d" % (c, cs[-1], rng.randint(1, 4), rng.choice([1, 1, 1, 2])))
        elif o == "clook":
            L.append("clook %d" % rng.choice(cs))
        elif o == "udec":
            L.append("udec %d %d" % (rng.choice(cs), rng.randint(1, 4)))
    return L + ["look %d" % i for i in sorted(ms)] + ["clook %d" % c for c in cs]
