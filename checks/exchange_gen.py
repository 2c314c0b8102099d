"""Script generator for the exchange driver."""

def gen(rng, mode="man", solver="greedy", emph="mix"):
    dur = 1 if mode == "man" else rng.choice([1, 2, 3])
    excl = 1 if solver == "greedy" else rng.choice([0, 1, 1])
    order = rng.choice(["end", "end", "rev"])
    L = ["sim %d %s %s %d %s" % (dur, mode, solver, excl, order)]
    excl_p = rng.choice([0, 0, .3, .7])
    # the optimising solver's penalty for unmet demand depends on the size of exclusive orders
    if rng.random() < .3 and (solver == "greedy" or not excl_p):
        L.append("scale %d" % rng.choice([2, 8, 12] if solver != "greedy" else [2, 8, 13, 16]))
    commods = ["c%d" % i for i in range(rng.choice([1, 1, 2, 3]))]
    if solver == "greedy" and rng.random() < .5:
        for c in commods:
            if rng.random() < .9:
                L.append("wgt %s %s" % (c, rng.choice([1, 2, 3, 5, 0.5])))
    # agents
    ag = []
    def agent(kind, par):
        ag.append(kind)
        L.append("agent %s %d" % (kind, par))
        return len(ag)
    regs = [agent("R", 0) for _ in range(rng.choice([0, 1, 1, 2]))]
    insts = [agent("I", rng.choice(regs + [0]) if regs else 0) for _ in range(rng.choice([0, 1, 2]))]
    facs = [agent("F", rng.choice(insts + insts + regs + [0])) for _ in range(rng.choice([1, 2, 3, 4, 5]))]
    nid = [0]
    def new():
        nid[0] += 1
        return nid[0]
    small = solver != "greedy"
    prefs = [1, 1, 2, 4, 5, 0.5] if small else [1, 1, 2, 3, 4, 5, 0.5, 8]
    qs = [1, 2, 3, 4, 5, 6, 8, 10, 0.5]
    for t in range(dur):
        for ty in "MP":
            if rng.random() < (.15 if ty == "M" else .55):
                continue
            reqs = []
            for _ in range(rng.choice([0, 1, 1, 2, 2, 3] if not small else [1, 1, 2, 2])):
                a = rng.choice(facs)
                L.append("rp %d %d %d %s" % (new(), t, a, ty))
                mine = []
                for _ in range(rng.choice([1, 1, 2, 3])):
                    r = new()
                    q = rng.choice(qs)
                    c = rng.choice(commods)
                    mine.append((r, q, c))
                    L.append("rq %d %s %s %s %d %d" % (r, c, q, rng.choice(prefs), rng.random() < excl_p, rng.choice([1, 2, 4])))
                reqs += mine
                if len(mine) > 1 and rng.random() < .4:
                    m = mine if rng.random() < .7 else mine[:2]
                    L.append("mut " + " ".join(str(x[0]) for x in m))
                if rng.random() < .3:
                    L.append("rc %s %s" % (rng.choice([1, 2, 5, 8, 20, 0.5]), rng.choice(["1", "1", "2", "0.5", "u"])))
            if not reqs:
                continue
            nb = 0
            bids = []
            for _ in range(rng.choice([0, 1, 2, 2, 3, 4] if not small else [1, 2, 2, 3])):
                a = rng.choice(facs)
                L.append("bp %d %d %d %s" % (new(), t, a, ty))
                sh = 0
                shq = None
                for _ in range(rng.choice([1, 1, 2, 3, 4] if not small else [1, 2, 2])):
                    r = rng.choice(reqs)
                    ex = rng.random() < excl_p
                    q = rng.choice(qs + [r[1], r[1]])
                    comp = rng.choice([1, 2, 4])
                    share = 0
                    if ex and rng.random() < .35:
                        if shq is None:
                            sh = new()
                            shq = (q, comp)
                        q, comp = shq
                        share = sh
                    b = new()
                    p = rng.choice(["nan", "nan", "nan"] + [str(x) for x in prefs] + ["-1"])
                    bids.append((b, r[0], a))
                    L.append("bd %d %d %s %d %s %d %d" % (b, r[0], q, ex, p, comp, share))
                for _ in range(rng.choice([0, 1, 1, 1, 2])):
                    L.append("bc %s %s" % (rng.choice([1, 2, 3, 5, 8, 12, 0.5, "inf"]), rng.choice(["1", "1", "2", "0.5", "u"])))
            for b in bids:
                if rng.random() < .25:
                    for _ in range(rng.choice([1, 1, 2])):
                        who = rng.randint(1, len(ag))
                        p = rng.choice(prefs + prefs + prefs + [-1]) if rng.random() < .985 else 0
                        L.append("adj %d %d %d %d %s" % (t, who, b[1], b[0], p))
                if rng.random() < .12:
                    L.append("rsp %d %s" % (b[0], rng.choice(["-1", "0", "0.5", "1"])))
    L.append("run")
    return L
