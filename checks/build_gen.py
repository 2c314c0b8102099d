"""Scripts for the building driver."""


def scheduled(b):
    c1, c2, k1, k2, a, i = b[0]
    L = ["prod 1 -", "prod 2 -", "addi 1 a %d %d" % (c1, k1), "addi 2 a %d %d" % (c2, k2), "breg 1 1", "breg 2 2", "mreg 1", "mreg 2",
         "sreg 1", "fun 1 lin %d %d 0 -" % (a, i), "regc a 1"]
    t, n = 0, 10
    for x in b[1:]:
        if x[0] == "grow":
            L += ["grow a %d 1 %d" % (t, n), "look %d" % t]
            n += 1000
            t += 1
        elif x[1]:
            L.append("retire 1")
    return L


def multiples(cap):
    """Demands that are whole multiples of the one capacity, with and without a worse alternative."""
    L = ["prod 1 -", "addi 1 a %d 8" % cap, "breg 1 1", "mreg 1"] + ["decide a %d" % (k * cap) for k in range(1, 7)]
    return L + ["prod 2 -", "addi 2 a %d 24" % (2 * cap + 1), "breg 1 2"] + ["decide a %d" % (k * cap) for k in range(1, 7)]


def gen(rng, many=3):
    L, mk, cs = [], {}, ["a", "b"]
    np = rng.choice([1, 2, 3, 3, 4])
    nb = rng.choice([1, 2, 2, 3])
    big = rng.random() < .3
    caps = [8, 8, 12, 16, 20, 24, 40, 3, 5, 49, 56, 72] if not big else [8000, 1600, 800, 12000, 6400, 4804]
    costs = [8, 8, 16, 24, 32, 40, 3, 80, 104] if not big else [8000, 1600, 240, 8, 12000, 3200]
    dems = list(range(0, 90, 3)) + [-8, 1, 8, 16, 49, 64, 96, 98, 120, 147] if not big else [8008, 1600, 10000, 24000, 12344, 15992, 16000, 16008, 800, -8]

    def price(p, c):
        if rng.random() < .5:
            L.append("addi %d %s %d %d" % (p, c, rng.choice(caps + ([0] if rng.random() < .2 else [])), rng.choice(costs)))
        else:
            L.append("add %d %s" % (p, c))
            L.append("setcap %d %s %d" % (p, c, rng.choice(caps)))
            if rng.random() < .95:
                L.append("setcost %d %s %d" % (p, c, rng.choice(costs)))
        mk[p].add(c)
    home = {}
    for p in range(1, np + 1):
        L.append("prod %d %s" % (p, "- -" if rng.random() < .7 else "%d %d" % (rng.choice(caps), rng.choice(costs))))
        mk[p] = set()
        for c in cs:
            if rng.random() < (.9 if c == "a" else .4):
                price(p, c)
        home[p] = rng.randint(1, nb)
        if rng.random() < .9:
            L.append("breg %d %d" % (home[p], p))
        if rng.random() < .3:
            L.append("greg %d %d" % (rng.randint(1, 2), p))
    for b in range(1, nb + 1):
        if rng.random() < .9:
            L.append("mreg %d" % b)
    for g in (1, 2):
        if rng.random() < .7:
            L.append("sreg %d" % g)
    fs, pw = [], {}
    for n in range(1, rng.choice([2, 3, 4])):
        if rng.random() < .6:
            L.append("fun %d %s %d %d 0 -" % (n, rng.choice(["lin", "linear"]), rng.choice([0, 8, 16, -8, 24]), rng.choice([0, 8, 40, 100, -16])))
        else:
            L.append("fun %d %s %d %d %d %s" % (n, rng.choice(["exp", "exponential"]), rng.choice([8, 16, 40, -8]), rng.choice([0, 8, 8]), rng.choice([0, 8, 20]), rng.choice(["-", "short"])))
        fs.append(n)
    if rng.random() < .1:
        L.append("fun 9 %s 8 8 8 -" % rng.choice(["cubic", "Linear", "ex", ""]).ljust(1, "x"))
    if rng.random() < .6:
        L.append("pw 5")
        x = rng.choice([0, 0, 8, -8])
        for i in range(rng.choice([0, 1, 2, 3])):
            L.append("pwadd 5 %d %d %d" % (rng.choice(fs), x, rng.random() < .5))
            x += rng.choice([8, 16, 24, 32, 0, -8] if rng.random() < .3 else [8, 16, 24])
        fs.append(5)
    ints = [0, 8, 16, 24, 32, 40, 48]
    for f in fs:
        for x in rng.sample(ints, 3) + ([-8] if f == 5 else []):
            L.append("val %d %d" % (f, x))
    reg = {}
    for c in cs:
        if rng.random() < .8:
            reg[c] = rng.choice(fs)
            L.append("regc %s %d" % (c, reg[c]))
    nx, t = 100, 0
    for _ in range(rng.choice([3, 6, 10])):
        p = rng.randint(1, np)
        o = rng.choice(["decide"] * 5 + ["grow"] * 3 + ["look", "breg", "bunreg", "mreg", "munreg", "greg", "gunreg", "sreg", "sunreg", "copy", "rm", "price", "retire"])
        c = rng.choice("aab")
        if o == "decide":
            L.append("decide %s %d" % (c, rng.choice(dems)))
        elif o == "grow":
            if c in reg and not big:
                L.append("sreg 1")
                L.append("grow %s %d 1 %d" % (c, t, nx))
                nx += 1000
                t = min(t + 1, 6)
        elif o == "look":
            L.append("look %d" % rng.randint(0, 6))
        elif o == "breg":
            L.append("breg %d %d" % (home[p], p))
        elif o == "bunreg":
            L.append("bunreg %d %d" % (home[p], p))
        elif o in ("mreg", "munreg"):
            L.append("%s %d" % (o, rng.randint(1, nb)))
        elif o in ("greg", "gunreg"):
            L.append("%s %d %d" % (o, rng.randint(1, 2), p))
        elif o in ("sreg", "sunreg", "retire"):
            L.append("%s %d" % (o, rng.randint(1, 2)))
        elif o == "copy":
            if np < 5:
                np += 1
                L.append("copy %d %d" % (np, p))
                mk[np] = set(mk[p])
                home[np] = rng.randint(1, nb)
        elif o == "rm":
            L.append("rm %d %s" % (p, c))
            mk[p].discard(c)
        elif o == "price":
            if c not in mk[p]:
                price(p, c)
            else:
                L.append("%s %d %s %d" % (rng.choice(["setcap", "setcost"]), p, c, rng.choice(caps)))
    L.append("look %d" % t)
    return L
