"""Input files for whole simulations of the bundled archetypes."""
import json
U = 256
RECIPES = {"leu": ("922350000:0.2500 922380000:0.7500", [(92235, 1), (92238, 3)]),
           "pu": ("942390000:1.0000", [(94239, 1)]),
           "dep": ("922380000:1.0000", [(92238, 2)])}
KF = {"half": .5, "same": 1, "double": 2, "zero": 0}


def el(n, v):
    return "<%s>%s</%s>" % (n, v, n)


def num(u):
    return repr(u / U)


def sig(n):
    return RECIPES[n][0] if n else ""


def conf(r, p):
    """The archetype's section of a prototype."""
    k = p["k"]
    if k == "source":
        fs = [el("commod", p["c"]), el("capacity", num(p["cap"]))] + ([el("recipe_name", p["rn"])] if p["rn"] else [])
        a = "Source"
    elif k == "sink":
        fs = ["<in_commods>%s</in_commods>" % "".join(el("val", c) for c in p["cs"]), el("capacity", num(p["cap"]))]
        if p["rn"]:
            fs.append(el("recipe_name", p["rn"]))
        if p["max"] >= 0:
            fs.append(el("max_inv_size", num(p["max"])))
        a = "Sink"
    elif k == "kfac":
        fs = [el("in_commod", p["ci"]), el("out_commod", p["co"]), el("recipe_name", p["rn"]), el("in_capacity", num(p["cin"])),
              el("out_capacity", num(p["cout"])), el("k_factor_in", KF[p["kin"]]), el("k_factor_out", KF[p["kout"]])]
        if p["max"] >= 0:
            fs.append(el("max_inv_size", num(p["max"])))
        a = "KFacility"
    elif k == "prey":
        fs = [el("commod", p["c"])]
        for n, t, d in (("age", "age", 0), ("nch", "nchildren", 1), ("bf", "birth_freq", 1), ("bad", "birth_and_death", True)):
            if p[n] != d or r.random() < .5:
                fs.append(el(t, int(p[n])))
        a = "Prey"
    else:
        fs = [el("commod", p["c"]), el("prey", p["prey"])]
        for n, t, d in (("full", "full", U), ("hf", "hunt_freq", 1), ("hcap", "hunt_cap", U), ("succ", "success", 2), ("fac", "hunt_factor", False),
                        ("age", "age", 0), ("span", "lifespan", 1), ("nch", "nchildren", 1), ("bad", "birth_and_death", False)):
            if p[n] != d or r.random() < .5:
                v = p[n] / U if n in ("full", "hcap") else p[n] / 2 if n == "succ" else int(p[n])
                fs.append(el(t, v))
        a = "Predator"
    r.shuffle(fs)
    return "<%s>%s</%s>" % (a, "".join(fs), a)


def xml(r, ps, dur):
    b = ["<control>%s</control>" % (el("duration", dur) + el("startmonth", r.randint(1, 12)) + el("startyear", 2000) + el("explicit_inventory", "true"))]
    b.append("<archetypes>%s</archetypes>" % "".join("<spec><lib>agents</lib><name>%s</name></spec>" % n for n in
                                                     ("Source", "Sink", "KFacility", "Prey", "Predator", "NullInst", "NullRegion")))
    for n, (_, w) in RECIPES.items():
        b.append("<recipe>%s</recipe>" % (el("name", n) + el("basis", "mass") + "".join("<nuclide>%s</nuclide>" % (el("id", i) + el("comp", v)) for i, v in w)))
    for p in ps:
        b.append("<facility>%s</facility>" % (el("name", p["name"]) + (el("lifetime", p["life"]) if p["life"] >= 0 else "") + "<config>%s</config>" % conf(r, p)))
    ent = [(p["name"], p["n"]) for p in ps if p["n"]]
    cut = r.randint(0, len(ent))
    inst = ""
    for i, es in enumerate([ent[:cut], ent[cut:]]):
        inst += "<institution>%s</institution>" % (el("name", "inst%d" % i) + "<config><NullInst/></config>" + (
            "<initialfacilitylist>%s</initialfacilitylist>" % "".join("<entry>%s</entry>" % (el("prototype", n) + el("number", k)) for n, k in es) if es else ""))
    b.append("<region>%s</region>" % (el("name", "reg") + "<config><NullRegion/></config>" + inst))
    return "<simulation>%s</simulation>" % "\n".join(b)


def script(r, ps, dur, back="mem"):
    for p in ps:
        if "rn" in p:
            p["rec"] = sig(p["rn"])
    return ["model " + json.dumps({"ps": ps}), "xml " + xml(r, ps, dur).encode().hex(), "back " + back, "run %d" % dur]


def q(r, hi=12):
    return r.choice([U // 2, U, U, 2 * U, 3 * U, 5 * U, r.randint(1, hi * 4) * U // 4])


def market(r):
    cs = ["a", "b", "c"][:r.choice([1, 1, 2, 3])]
    ps = []
    for i in range(r.choice([1, 1, 2, 3])):
        ps.append({"name": "src%d" % i, "k": "source", "c": r.choice(cs), "rn": r.choice(["", "leu", "pu", "dep"]), "cap": r.choice([0, q(r), q(r), q(r), 40 * U])})
    for i in range(r.choice([1, 1, 2, 3])):
        ps.append({"name": "snk%d" % i, "k": "sink", "cs": r.sample(cs, r.randint(1, len(cs))), "rn": r.choice(["", "leu", "pu"]),
                   "cap": r.choice([0, q(r), q(r), q(r), 30 * U]), "max": r.choice([-1, -1, q(r), q(r) * 2, q(r) * 4])})
    for i in range(r.choice([0, 0, 1, 2])):
        ps.append({"name": "kf%d" % i, "k": "kfac", "ci": r.choice(cs), "co": r.choice(cs), "rn": r.choice(["leu", "pu", "dep"]),
                   "cin": r.randint(0, 6) * U, "cout": r.randint(0, 6) * U, "kin": r.choice(list(KF)), "kout": r.choice(list(KF)),
                   "max": r.choice([-1, -1, q(r), q(r) * 3])})
    for p in ps:
        p["life"] = r.choice([-1, -1, -1, 1, 2, 3])
        p["n"] = r.choice([0, 1, 1, 1, 2, 3]) if r.random() < .4 else 1
    return ps


def hunt(r):
    cs = ["wabbit", "hare"][:r.choice([1, 1, 2])]
    ps = []
    for i in range(r.choice([1, 1, 2])):
        ps.append({"name": "prey%d" % i, "k": "prey", "c": r.choice(cs), "age": r.choice([0, 0, 1, 2]), "nch": r.choice([0, 1, 1, 2]), "bf": r.choice([1, 2, 3]), "bad": r.random() < .5})
    for i in range(r.choice([0, 1, 1, 2])):
        y = r.choice(ps[:1] if len(ps) == 1 else ps[:2]) if ps[0]["k"] == "prey" else ps[0]
        while y["k"] != "prey":
            y = r.choice(ps)
        ps.append({"name": "fox%d" % i, "k": "pred", "c": y["c"], "prey": y["name"], "full": r.choice([U // 2, U, U, 2 * U, 3 * U]), "hf": r.choice([1, 1, 2, 3]),
                   "hcap": r.choice([U // 2, U, U, 2 * U, 3 * U]), "succ": r.choice([0, 1, 2, 2]), "fac": r.random() < .4, "age": r.choice([0, 0, 1]),
                   "span": r.choice([1, 2, 3, 5, 9]), "nch": r.choice([0, 1, 1, 2]), "bad": r.random() < .5})
    if r.random() < .25:
        ps.append({"name": "pen", "k": "sink", "cs": [r.choice(cs)], "rn": "", "cap": r.choice([U, 2 * U]), "max": r.choice([-1, 3 * U])})
    for p in ps:
        p["life"] = r.choice([-1, -1, -1, -1, 2, 3])
        p["n"] = r.choice([0, 1, 2, 3, 4])
    return ps


def gen(r):
    m = r.random() < .65
    ps = market(r) if m else hunt(r)
    return script(r, ps, r.choice([1, 2, 3, 4, 5, 7]) if m else r.choice([2, 3, 4]), "h5" if r.random() < .02 else "mem")


def scheduled(r, b):
    """A configuration enumerated by the model."""
    ps = [dict(p) for p in b["ps"]]
    for p in ps:
        if "rec" in p:
            p["rn"] = r.choice(["pu", "leu", "dep"]) if p["rec"] == "r" else ""
    return script(r, ps, 4 if ps[0]["k"] == "prey" else 5)
