"""Random scripts for the policy driver."""
Q = 250


def seq(r, vals, n=3):
    return ",".join(str(r.choice(vals)) for _ in range(r.choice([1, 1, 2, n])))


def buy_init(r, i, nb, trks, bad=0.04):
    b = r.randint(1, nb)
    ok = [k + 1 for k, t in enumerate(trks) if b in t]
    if r.random() < bad and trks:
        k = r.randint(1, len(trks))
    else:
        k = r.choice(ok + [0]) if ok else 0
    thr = r.choice([-1, -1, 0, Q, 4 * Q, 10 * Q, 7 * Q])
    m = r.choice(["plain", "cycle", "cycle", "quant", "inv", "inv", "inv0", "cum", "cum"])
    h = "buy %d %d %d %s" % (i, b, k, m)
    if m == "plain": return h
    if m == "cycle":
        ad = r.choice(["-", seq(r, [1, 2, 3]), seq(r, [1, 1, 2, 4])])
        dd = r.choice(["-", "-1", seq(r, [1, 2, 3]), seq(r, [0, 1, 2])])
        sd = r.choice(["-", "-", seq(r, [16, 8, 4]), seq(r, [2, 12, 16, 0])] + (["8,17"] if r.random() < 0.2 else []))
        return "%s %d %s %s %s" % (h, thr, ad, dd, sd)
    if m == "quant": return "%s %d %d" % (h, thr if thr >= 0 else 20 * Q, r.choice([Q, 2 * Q, 3 * Q, 5 * Q, -Q]))
    pol = r.choice(["ss", "sS", "SS", "rq", "RQ", "qr", "QR", "Rq"] + (["SQ"] if r.random() < 0.15 else []))
    if m in ("inv", "inv0"):
        req = r.choice([0, Q, 2 * Q, 5 * Q])
        fill = r.choice([Q, 2 * Q, 4 * Q, 9 * Q])
        if m == "inv": return "%s %d %s %d %d" % (h, thr, pol, fill, req)
        return "%s %s %d %d" % (h, pol, fill, req)
    return "%s %d %d %s" % (h, thr, r.choice([2 * Q, 4 * Q, 8 * Q, 9 * Q]), seq(r, [0, 1, 1, 2, 3]))


def gen_buy(r):
    out = ["comp fuel 1 3", "comp ore 2 5"]
    nb = r.choice([1, 2, 2, 3])
    for _ in range(nb): out.append("buf %d" % r.choice([-1, 4 * Q, 8 * Q, 10 * Q, 20 * Q]))
    trks = []
    for _ in range(r.choice([0, 1, 1, 2])):
        bs = sorted(r.sample(range(1, nb + 1), r.randint(1, nb)))
        trks.append(bs)
        out.append("trk %d %s" % (r.choice([-1, 5 * Q, 9 * Q, 15 * Q]), ",".join(map(str, bs))))
    np = r.choice([1, 1, 1, 2, 3])
    live = set()

    def sets(i):
        for c in r.sample(["u", "v", "w"], r.choice([1, 1, 2, 3])):
            out.append("set %d %s %s %s" % (i, c, *r.choice([("-", "-"), ("fuel", "-"), ("ore", "6"), ("fuel", "1"), ("ore", "4")])))
    late = r.randint(0, 2) if r.random() < 0.3 else 0
    for t in range(r.choice([3, 5, 8, 12, 16])):
        for i in range(1, np + 1):
            if i not in live and t >= late:
                out.append(buy_init(r, i, nb, trks))
                sets(i)
                live.add(i)
                if r.random() < 0.3: out.append("start %d" % i)
                if r.random() < 0.1: out.append("start %d" % i)
            elif i in live and r.random() < 0.05:
                # lots of a fixed size and no limit at all would be endless
                if r.random() < 0.8 or any(o.startswith("buy %d " % i) and " quant " in o for o in out): out.append("reset %d" % i)
                out.append(buy_init(r, i, nb, trks, 0.01))
        for _ in range(r.choice([0, 0, 1, 2])):
            p = r.random()
            if p < 0.5: out.append("take %d %d" % (r.randint(1, nb), r.choice([Q, 2 * Q, 5 * Q, 30 * Q])))
            elif p < 0.75: out.append("put %d %d fuel" % (r.randint(1, nb), r.choice([Q, 2 * Q, 3 * Q])))
            elif live:
                i = r.choice(sorted(live))
                if p < 0.82: sets(i)
                elif p < 0.9: out.append("unset %d %s" % (i, r.choice("uvw")))
                elif p < 0.95: out.append("stop %d" % i)
                else: out.append("start %d" % i)
        for i in sorted(live):
            out.append("ask %d" % i)
            if r.random() < 0.75:
                n = r.choice([1, 1, 2, 3, 6])
                out.append("fill %d %s" % (i, " ".join("%d,%d,%d" % (r.randint(0, 8), r.randint(0, 2), r.choice([16, 16, 8, 4, 1])) for _ in range(n))))
        out.append("next")
    return out


def gen_sell(r):
    out = ["comp fuel 1 3", "comp ore 2 5", "comp pure 1 0"]
    nb = r.choice([1, 1, 2])
    for _ in range(nb): out.append("buf %d" % r.choice([-1, -1, 20 * Q, 40 * Q]))
    pk, tu = ["unpackaged"], ["unrestricted"]
    for i in range(r.choice([0, 1, 1, 2])):
        lo, hi = r.choice([(0, 4 * Q), (Q, 2 * Q), (2 * Q, 3 * Q), (4 * Q, 4 * Q), (0, -1), (Q, 4 * Q), (2 * Q, 8 * Q)])
        out.append("pkg pk%d %d %d %s" % (i, lo, hi, r.choice(["first", "first", "equal", "uniform"] if hi > 0 and lo < hi else ["first", "equal"])))
        pk.append("pk%d" % i)
    for i in range(r.choice([0, 0, 1, 2])):
        lo, hi = r.choice([(0, 2), (1, 3), (2, 2), (2, 4), (3, 5), (0, -1), (1, 1)])
        out.append("tu tu%d %d %d %s" % (i, lo, hi, r.choice(["first", "equal", "hybrid"])))
        tu.append("tu%d" % i)
    comps = [r.choice(["fuel", "ore", "pure"]) for _ in range(nb)]
    np = r.choice([1, 1, 2])

    def init(i):
        b = r.randint(1, nb)
        m = r.choice(["plain", "thr", "ign", "both", "full", "full", "full", "full"])
        p, u = r.choice(pk), r.choice(tu)
        if r.random() < 0.03: p = "nosuch"
        q = r.choice([0, 0, 0, Q, 2 * Q, 3 * Q, 4 * Q])
        out.append("sell %d %d %s %d %d %d %s %s" % (i, b, m, r.choice([-1, -1, 2 * Q, 7 * Q, 12 * Q]), r.random() < 0.5, q, p, u))
    live = set()
    for t in range(r.choice([2, 4, 6, 9])):
        for i in range(1, np + 1):
            if i not in live:
                init(i)
                live.add(i)
                for c in r.sample(["u", "v"], r.choice([1, 2])): out.append("sset %d %s" % (i, c))
                if r.random() < 0.2: out.append("start %d" % -i)
            elif r.random() < 0.08: init(i)
        for _ in range(r.choice([0, 1, 2])):
            b = r.randint(1, nb)
            if r.random() < 0.8: out.append("put %d %d %s" % (b, r.choice([Q, 2 * Q, 5 * Q, 9 * Q, 16 * Q]), comps[b - 1]))
            else: out.append("take %d %d" % (b, r.choice([Q, 3 * Q, 50 * Q])))
        for i in sorted(live):
            if r.random() < 0.1: continue
            out.append("bid %d %s" % (i, " ".join("%s,%d,%s" % (r.choice(["u", "u", "v", "z"]), r.choice([Q, 2 * Q, 3 * Q, 4 * Q, 7 * Q, 12 * Q, 40 * Q]), r.choice(["fuel", "ore", "pure"]))
                                                   for _ in range(r.choice([1, 1, 2, 3])))))
            if r.random() < 0.85:
                full = r.random() < 0.6
                out.append("ship %d %s" % (i, " ".join("%d,%d" % (r.randint(0, 7), 16 if full else r.choice([16, 8, 4, 12, 2])) for _ in range(r.choice([1, 2, 3, 5, 8])))))
        out.append("next")
    return out


def gen(r, focus):
    return gen_buy(r) if focus == "buy" else gen_sell(r)


def scheduled(r, beh):
    """A behaviour of MCPolicy as a script."""
    c, tr = beh
    lim = lambda v: -1 if v >= 1000000000 else v
    out = ["comp fuel 1 3", "buf %d" % lim(c["bc"]), "buf 2000"]
    k = 0
    if c["tc"]:
        out.append("trk %d 1,2" % c["tc"])
        k = 1
    h = "buy 1 1 %d %s" % (k, c["mode"])
    m = c["mode"]
    if m == "cycle": h += " %d %d %d %d" % (lim(c["thr"]), c["ad"], c["dd"], c["sz"])
    elif m == "quant": h += " %d %d" % (c["thr"], c["q"])
    elif m == "inv": h += " %d %s %d %d" % (lim(c["thr"]), c["pol"], c["fill"] if c["pol"] == "sS" else c["q"], c["req"])
    elif m == "cum": h += " %d %d %d" % (lim(c["thr"]), c["cap"], c["dd"])
    out += [h, "set 1 u fuel -"]
    for op, v in tr:
        if op == "take" and v: out.append("take 1 %d" % v)
        elif op == "put": out.append("put 2 %d fuel" % v)
        elif op == "fill":
            out.append("ask 1")
            # lots are met one by one, a plain request in part
            if v: out.append("fill 1 " + " ".join("%d,0,%d" % (i, v) for i in range(8 if v == 16 else 1)))
            out.append("next")
    return out
