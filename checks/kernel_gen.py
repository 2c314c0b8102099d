"""Script generator for the kernel driver."""

def gen(rng, emph="mix"):
    dur = rng.choice([1, 2, 3, 4, 5, 6, 8, 10])
    ex = rng.choice([0, 0, 1, 2, 3]) if emph != "inv" else rng.choice([1, 2, 3])
    L = ["sim %d %d" % (dur, ex)]
    protos = {}

    def inv():
        s = ""
        for n in rng.sample(["a", "b", "pp", "q"], rng.randint(0, 4)):
            k = rng.choice([0, 1, 1, 2, 3, 5])
            s += " %s %d" % (n, k)
            for _ in range(k):
                a, b = rng.choice([(1, 0), (0, 2), (3, 1), (5, 7), (1, 1)])
                s += " %d %d" % (a, b)
        return s
    def proto(name, kind, life):
        protos[name] = kind
        L.append("proto %s %s %d%s" % (name, kind, life, inv() if (ex and rng.random() < .8) else ""))
    proto("R", "R", -1)
    proto("I", "I", -1)
    nf = rng.randint(1, 3)
    for i in range(nf):
        proto("F%d" % i, "F", rng.choice([-1, -1, 1, 1, 2, 3, 5]))
    facs = ["F%d" % i for i in range(nf)]
    if rng.random() < .3:
        proto("J", "I", rng.choice([-1, 2, 3]))
    idx = 0
    regions, insts, fac_idx = [], [], []
    par = {}
    def init(p, q):
        nonlocal idx
        L.append("init %s %d" % (p, q))
        idx += 1
        par[idx] = q
        return idx
    for _ in range(rng.choice([1, 1, 1, 2, 0]) if rng.random() < .95 else 0):
        regions.append(init("R", 0))
    for _ in range(rng.randint(1, 3)):
        insts.append(init("I", rng.choice(regions) if regions and rng.random() < .9 else 0))
    for _ in range(rng.randint(0, 4)):
        fac_idx.append(init(rng.choice(facs), rng.choice(insts + [0])))
    if "J" in protos and rng.random() < .7:
        init("J", rng.choice(insts + regions))
    if rng.random() < .3:
        fac_idx.append(init(rng.choice(facs), rng.choice(insts)))
    n0 = idx
    acts = []
    # one institution may be retired explicitly
    retire = {}
    if len(insts) > 1 and rng.random() < .5:
        retire[insts[-1]] = rng.randint(0, dur)
    if len(regions) > 1 and rng.random() < .3:
        retire[regions[-1]] = rng.randint(0, dur)
    held = {}
    if fac_idx and rng.random() < .35:
        held[rng.choice(fac_idx)] = rng.randint(0, dur)
    for a, u in held.items():
        L.append("act 0 pre 0 hold %d %d" % (a, u))
    phs = ["tick", "tick", "reqm", "tock", "dec", "dec"]
    core = [i for i in regions + insts if i not in retire]
    nact = rng.randint(0, 14) if emph != "phase" else rng.randint(0, 6)
    def target():
        return rng.randint(1, n0 + 6)
    parents_used = {}
    for _ in range(nact):
        pre = rng.random() < .12
        t = 0 if pre else rng.randint(0, max(0, dur - 1))
        ph = "pre" if pre else rng.choice(phs)
        who = 0 if pre else rng.choice(core + core + fac_idx + [target()]) if core + fac_idx else target()
        r = rng.random()
        if r < .40:
            at = rng.choice([-1, -1, t + 1, t + 1, t + 2, t + 3, rng.randint(0, dur + 1), t])
            p = rng.choice(core + [0]) if core else 0
            if rng.random() < .1:
                p = target()
            if retire and rng.random() < .25:
                q = rng.choice(list(retire))
                p = q
            pr = rng.choice(list(protos)) if rng.random() < .25 else rng.choice(facs)
            if rng.random() < .01:
                pr = "nosuch"
            acts.append((t, ph, who, "sb %s %d %d" % (pr, p, at if rng.random() < .96 else -2)))
        elif r < .62:
            cand = [i for i in range(1, n0 + 7) if i not in core and i not in retire]
            a = rng.choice(cand) if cand else 0
            at = rng.choice([-1, -1, t, t + 1, t + 2, rng.randint(0, dur), t - 1 if t else -1])
            at = at if rng.random() < .96 else -3
            if a in held and (at if at != -1 else t) < held[a]:
                continue
            if a and a not in regions:
                acts.append((t, ph, who, "sd %d %d" % (a, at)))
        elif r < .66:
            if rng.random() < .5:
                acts.append((t, ph, who, "kill"))
        elif r < .72:
            acts.append((t, ph, who, "snap"))
        elif r < .82:
            p = rng.choice(list(protos))
            acts.append((t, ph, who, "cnt %s :v:%s" % (p, rng.choice("FIR"))))
        elif r < .87:
            cand = [i for i in range(1, n0 + 5) if i not in retire and i not in core]
            if cand:
                a = rng.choice(cand)
                acts.append((t, ph, who, "%s %d %d" % (rng.choice(["life", "life", "lifes"]), a, rng.choice([-1, 1, 2, 3, 4, 7]))))
        elif r < .92:
            acts.append((t, ph, who, "fam" if rng.random() < .6 else "tree %d" % target()))
        elif r < .95:
            acts.append((t, ph, who, "rereg %d" % target()))
        elif r < .98:
            nm = rng.choice(["N0", "N1", facs[0]])
            ow = 1 if rng.random() < .4 else 0
            acts.append((t, ph, who, "proto %s %s %d %d" % (nm, "FI"[nm == facs[0] and not ow and rng.random() < .6], rng.choice([-1, 1, 2]), ow)))
            if nm.startswith("N") and core:
                acts.append((t, ph, who, "sb %s %d %d" % (nm, rng.choice(core), rng.choice([-1, t + 1, t + 2]))))
    for a, d in retire.items():
        # scheduled once by a core agent (or before the run), possibly re-scheduled to the same time
        acts.append((0, "pre", 0, "sd %d %d" % (a, d)))
    if core and rng.random() < .6:
        acts.append((rng.randint(0, dur - 1), rng.choice(["tick", "dec"]), rng.choice(core), "fam"))
    rng.shuffle(acts)
    for t, ph, who, s in acts:
        L.append("act %d %s %d %s" % (t, ph, who, s))
    L.append("run")
    return L
