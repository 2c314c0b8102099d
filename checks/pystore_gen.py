"""Scripts for the Python interface to recorders and databases."""
SIMPLE = "BOOL INT FLOAT DOUBLE STRING VL_STRING UUID".split()
OPS = ["==", "!=", "<", ">", "<=", ">="]
SHAPED = ["VECTOR_INT@3", "VECTOR_DOUBLE@2"]
NAMES = ["val0", "val1", "x", "conds", "Value"]


def one_type(rng, types, kinds):
    """Every value of one type through each kind of output."""
    L = ["back " + k for k in kinds]
    L += ["tab T " + t for t in [types]]
    L += ["sim %d 1" % rng.choice([1, 2, 5])] + ["reg 1 %d" % (i + 1) for i in range(len(kinds))]
    L += ["rec 1 T %d" % i for i in range(12)] + ["flush 1"] + ["q %d T" % (i + 1) for i in range(len(kinds))]
    L += ["close 1"]
    for i, k in enumerate(kinds):
        if k != "mem":
            L += ["reopen %d" % (i + 1), "q %d T" % (i + 1)]
    return L


def gen(rng, allt, sqlt, h5t):
    kinds = rng.choice([["mem"], ["mem"], ["mem", "sql"], ["mem", "h5"], ["sql"], ["h5"], ["mem", "mem", "sql"], ["sql", "h5"]])
    pool = [t for t in allt if ("sql" not in kinds or t in sqlt) and ("h5" not in kinds or t in h5t)]
    if "h5" not in kinds:                          # HDF5 cuts blobs at NUL bytes (known finding of P15)
        pool = pool + ["BLOB!"] * 3 + ([t + "!" for t in pool if "BLOB" in t] if "sql" not in kinds else [])
    L, mems, dbs, fbs = [], [], [], {}
    for k in sorted(kinds, reverse=True):          # databases first, so that they can be fallen back on
        fb = rng.choice(dbs) if k == "mem" and dbs and rng.random() < .6 else 0
        L.append("back %s%s" % (k, " %d" % fb if fb else ""))
        n = len(mems) + len(dbs) + 1
        (mems if k == "mem" else dbs).append(n)
        fbs[n] = fb
    nb = len(kinds)
    tabs = {}
    for i in range(rng.choice([1, 2, 3])):
        n = rng.choice(["Tab%d", "Ab%d", "Table_%d"]) % i
        ty, used = [], set()
        for _ in range(rng.choice([1, 2, 3, 4])):
            t = rng.choice(SIMPLE) if rng.random() < .5 else rng.choice(pool + SHAPED)
            c = rng.choice(NAMES)
            if rng.random() < .3 and c not in used:
                used.add(c)
                t += ":" + c
            ty.append(t)
        tabs[n] = ty
        L.append("tab %s %s" % (n, " ".join(ty)))
    inj = rng.random() < .8
    nr = 0
    keep = {b: None for b in mems}                 # None: all

    def sim():
        nonlocal nr
        nr += 1
        L.append("sim %d %d" % (rng.choice([1, 1, 2, 5]), inj))
        for b in range(1, nb + 1):
            if rng.random() < .85:
                L.append("reg %d %d" % (nr, b))

    def query():
        b = rng.randint(1, nb)
        t = rng.choice(sorted(tabs) + (["NoSuchTable"] if rng.random() < .1 else []))
        cs = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            if inj and rng.random() < .3:
                cs.append("0 == %d" % rng.randint(1, nr))
            else:
                cs.append("%d %s %d" % (99 if rng.random() < .1 else rng.randint(1, 9), rng.choice(OPS), rng.randrange(12)))
        L.append("q %d %s %s" % (b, t, " ".join(cs)))

    sim()
    for _ in range(rng.choice([8, 15, 30])):
        p = rng.random()
        if p < .55:
            t = rng.choice(sorted(tabs))
            for _ in range(rng.choice([1, 1, 1, 3])):
                L.append("rec %d %s %s" % (nr, t, " ".join(str(rng.randrange(12)) for _ in tabs[t])))
        elif p < .75:
            query()
        elif p < .8:
            L.append("flush %d" % nr)
        elif p < .84:
            L.append("tabs %d" % rng.randint(1, nb))
        elif p < .93 and mems:
            s = rng.choice(["all", "none", "false", None, None, None])
            s = s or " ".join(rng.sample(sorted(tabs) + ["NoSuchTable"], rng.randint(1, len(tabs) + 1)))
            L.append("keep %d %s" % (rng.choice(mems), s))
        elif p < .95 and dbs:
            L.append("schema %d %s" % (rng.choice(dbs), rng.choice(sorted(tabs))))
        else:
            L.append("close %d" % nr)
            if dbs and rng.random() < .5:
                b = rng.choice(dbs)
                if b not in fbs.values():
                    L.append("reopen %d" % b)
            if nr < 3:
                sim()
            else:
                L += ["reg %d %d" % (nr, b) for b in range(1, nb + 1)]
    L.append("close %d" % nr)
    for b in range(1, nb + 1):
        for t in sorted(tabs):
            L.append("q %d %s" % (b, t))
        L.append("tabs %d" % b)
    query()
    return L
