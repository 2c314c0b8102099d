"""Script generator for the resource driver."""


def qty(rng):
    return rng.choice([500, 1000, 1000, 2000, 2000, 3000, 4000, 5000, 7500, 10000, rng.randint(1, 12000)])


def gen(rng, focus="mix", n=None):
    L = []
    if rng.random() < .25:
        L.append("scale %d" % rng.choice([2, 5, 10, 14]))
    comps = []
    for i in range(rng.choice([1, 2, 3])):
        c = "c%d" % i
        comps.append(c)
        f = rng.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 3, 0), (1, 2, 1), (1, 9, 0), (3, 4, 3), (1, 0, 1)])
        L.append("comp %s %d %d %d" % ((c,) + f))
    pkgs, tus = [], []

    def decl_pkg():
        st = rng.choice(["first", "first", "equal", "equal", "uniform", "normal"])
        mn = rng.choice([0, 500, 1000, 2000, 3000])
        mx = mn + rng.choice([0, 500, 1000, 2000, 5000])
        if mn == 0 and st in ("uniform", "normal"):
            mn = 500
        mx = max(mx, mn + (500 if st in ("uniform", "normal") else 0), 500)
        if rng.random() < .12:
            mn, mx, st = rng.choice([(3000, 1000, "first"), (-1000, 1000, "first"), (1000, 2000, "nosuch"), (0, -1, "equal")])
        nm = "k%d" % (rng.randrange(len(pkgs) + 1) if rng.random() < .15 else len(pkgs))
        L.append("pkg %s %d %d %s" % (nm, mn, mx, st))
        pkgs.append(nm)

    def decl_tu():
        st = rng.choice(["first", "equal", "hybrid"])
        mn = rng.choice([0, 1, 1, 2, 3, 4])
        mx = mn + rng.choice([0, 1, 2, 4])
        if rng.random() < .1:
            mx = 2147483647
        if rng.random() < .12:
            mn, mx, st = rng.choice([(3, 1, "first"), (-1, 1, "first"), (1, 2, "nosuch")])
        nm = "u%d" % (rng.randrange(len(tus) + 1) if rng.random() < .15 else len(tus))
        L.append("tu %s %d %d %s" % (nm, mn, mx, st))
        tus.append(nm)

    if focus in ("pkg", "mix", "buf", "prov"):
        for _ in range(rng.choice([1, 2, 3]) if focus == "pkg" else rng.choice([0, 1, 2])):
            decl_pkg()
    if focus == "pkg":
        for _ in range(rng.choice([1, 2])):
            decl_tu()

    def pk():
        if rng.random() < .08:
            return "nosuch"
        return rng.choice(pkgs) if pkgs else "nosuch"

    nb = 0

    def mkbuf():
        nonlocal nb
        ty = "M" if focus == "trk" else rng.choice("MMMP")
        bulk = rng.choice([0, 0, 1])
        keep = 0 if bulk and rng.random() < .9 else rng.choice([0, 0, 1])
        L.append("buf %s %d %d %d" % (ty, bulk, keep, rng.random() < .85))
        nb += 1
        if rng.random() < (.4 if focus == "trk" else .7):
            L.append("bcap %d %d" % (nb - 1, rng.choice([2000, 5000, 10000, 15000, 20000])))

    if focus == "buf":
        for _ in range(rng.choice([1, 1, 2])):
            mkbuf()
    elif focus == "trk":   # several buffers under one or two limits
        for _ in range(rng.choice([2, 3, 3, 4, 5])):
            mkbuf()
        for _ in range(rng.choice([1, 1, 2])):
            bs = list(range(nb))
            rng.shuffle(bs)
            L.append("trk %s %s" % (rng.choice(["inf", "8000", "12000", "20000", "40000"]),
                                    " ".join(map(str, bs[:rng.choice([2, 3, 4, 5])]))))
    elif focus == "inv":
        for _ in range(rng.choice([1, 2, 3])):
            mkbuf()
    elif rng.random() < .4:
        mkbuf()

    def r(k=50):
        return rng.randrange(k)

    def mk():
        ty = rng.choice("MMMP")
        L.append("mk %s %d %s%s %s %s" % (ty, r(2), qty(rng), rng.choice(["", "", "", "e"]),
                                         rng.choice(comps) if ty == "M" else rng.choice(["qa", "qa", "qb"]),
                                         rng.choice(pkgs) if pkgs and rng.random() < .15 else "-"))

    def un():
        ty = rng.choice("MMP")
        L.append("un %s %d %s" % (ty, qty(rng), rng.choice(comps) if ty == "M" else rng.choice(["qa", "qb"])))

    def eq():
        return rng.choice(["all", "all", "alle", "half", "half", str(rng.randint(1, 4000)), str(qty(rng)), str(qty(rng)) + "e"])

    res = [(mk, 5), (un, .6),
           (lambda: L.append("clone %d" % r()), .6),
           (lambda: L.append("ext %d %s" % (r(), eq())), 5),
           (lambda: L.append("extc %d %d %s" % (r(), rng.randint(1, 3000), rng.choice(comps))), 3),
           (lambda: L.append("abs %d %d" % (r(), r())), 5),
           (lambda: L.append("sq " + " ".join(str(r()) for _ in range(rng.choice([1, 2, 3, 4])))), 1.5),
           (lambda: L.append("tra %d %s" % (r(), rng.choice(comps))), 2),
           (lambda: L.append("t"), 1.5)]
    pkg = [(decl_pkg, .6), (decl_tu, .5),
           (lambda: L.append("pkx %d %s %s" % (r(), eq(), pk())), 2),
           (lambda: L.append("pk %d %s" % (r(), pk())), 4),
           (lambda: L.append("chp %d %s" % (r(), "-" if rng.random() < .3 else pk())), 3),
           (lambda: L.append("fill %s %d" % (pk(), rng.choice([0, 1, 499, 1000, 2000, 2999, 3000, 4000, 5000, 6000, 10000, rng.randint(0, 20000)]))), 3),
           (lambda: L.append("tuf %s %d" % (rng.choice(tus + ["nosuch"]) if tus else "unrestricted", rng.randint(0, 25))), 3)]

    def push():
        v = [rng.choice(["", "", "", "", "", "", "d", "w"]) + str(r()) for _ in range(1)]
        L.append("push %d %s" % (r(), v[0]))

    def pushv():
        v = []
        for i in range(rng.choice([1, 2, 3, 4])):
            p = rng.random()
            v.append(("d" if p < .04 else "w" if p < .07 else "r" if p < .10 and i else "") + str(r()))
        L.append("pushv %d %s" % (r(), " ".join(v)))

    buf = [(mkbuf, .5), (push, 5), (pushv, 4),
           (lambda: L.append("pop %d" % r()), 2), (lambda: L.append("popb %d" % r()), 2),
           (lambda: L.append("peek %d" % r()), .7),
           (lambda: L.append("popn %d %s" % (r(), rng.choice(["all", "0", "1", "2", "2", "3", "5"]))), 1.5),
           (lambda: L.append("popq %d %s" % (r(), rng.choice(["all", str(qty(rng)), str(qty(rng)), str(rng.randint(1, 3000))]))), 3),
           (lambda: L.append("popv %d %s" % (r(), rng.choice(["all", str(qty(rng)), str(qty(rng)), str(rng.randint(1, 3000)), "0"]))), 3),
           (lambda: L.append("popqe %d %s %d" % (r(), rng.choice(["over", "all", str(qty(rng))]), rng.choice([0, 1, 10, 500]))), 1.5),
           (lambda: L.append("bcap %d %s" % (r(), rng.choice(["q", "inf", "0", "-5", str(qty(rng)), "15000"]))), 1.2)]
    inv = [(lambda: L.append("trk %s %s" % (rng.choice(["inf", "0", "4000", "8000", "20000"]), " ".join(str(r()) for _ in range(rng.choice([0, 1, 2, 3]))))), 1),
           (lambda: L.append("tcap %d %d" % (r(), rng.choice([0, 1000, 5000, 12000, 40000]))), 1),
           (lambda: L.append("mset %d %d" % (rng.randrange(5), r())), 3),
           (lambda: L.append("mpop %d" % rng.randrange(5)), 1.5), (lambda: L.append("mers %d" % rng.randrange(5)), 1),
           (lambda: L.append("mtouch %d" % rng.randrange(5)), 1), (lambda: L.append("mclr"), .2),
           (lambda: L.append("mrng %d" % rng.randrange(5)), .3), (lambda: L.append("msave %d" % rng.randrange(5)), .7)]
    sel = {"res": res, "prov": res + [(f, w * .3) for f, w in pkg + buf],
           "pkg": [(f, w * .6) for f, w in res] + pkg,
           "buf": [(f, w * .7) for f, w in res] + buf + [(f, w * .1) for f, w in pkg],
           "inv": [(f, w * .6) for f, w in res] + [(f, w * .7) for f, w in buf] + inv,
           "trk": [(f, w * .8) for f, w in res[:1]] + buf[1:] + inv[1:2],
           "mix": res + pkg + buf + inv}[focus]
    fs, ws = zip(*sel)
    for _ in range(rng.choice([2, 3, 4])):
        mk()
    for f in rng.choices(fs, ws, k=n or rng.choice([10, 20, 30])):
        f()
    if rng.random() < .3:
        L.append("drain")
    return L
