"""Random input files (as models and as XML text) and scripts for the sim driver."""
import json
from xml.sax.saxutils import escape

NUCS = {92235: ["922350000", "U235", "92235", "u-235"], 92238: ["922380000", "U238", "U-238"], 94239: ["Pu239", "942390000"], 1001: ["H1", "10010000"], 8016: ["O16", "80160000"]}


def dstr(x):
    return "%.17g" % x


def parts(r, n, tot=64):
    cut = sorted(r.sample(range(1, tot), n - 1))
    return [b - a for a, b in zip([0] + cut, cut + [tot])]


def model(r, small=False):
    m = {"ok": True, "dur": r.choice([1, 2, 3, 4, 5, 6, 8, 14]), "y0": r.choice([0, 1999, 2010, 2024]), "m0": r.randint(1, 12)}
    if r.random() < 0.4: m["handle"] = r.choice(["run-7", "x", "a b"])
    if r.random() < 0.4: m["decay"] = r.choice(["manual", "never"])
    if r.random() < 0.4: m["dt"] = r.choice([1, 3600, 86400, 2629846])
    if r.random() < 0.4: m["seed"] = r.choice([1, 42, 2147483647])
    if r.random() < 0.4: m["stride"] = r.choice([1, 7, 20000])
    if r.random() < 0.4: m["eps"] = r.choice([1e-3, 1e-5, 1e-8])
    if r.random() < 0.4: m["epsr"] = r.choice([1e-4, 1e-7, 2.5e-9])
    if r.random() < 0.4: m["ei"] = r.random() < 0.6
    if r.random() < 0.3: m["eic"] = r.random() < 0.6
    if r.random() < 0.5:
        m["solver"] = {}
        if r.random() < 0.7: m["solver"]["kind"] = r.choice(["greedy", "greedy", "greedy", "coin-or"])
        if r.random() < 0.7: m["solver"]["excl"] = r.random() < 0.5
    cs = r.sample(["c", "ore", "fuel", "waste", "k9"], r.choice([0, 0, 1, 2, 3]))
    m["commods"] = [{"name": c, "prio": r.choice([-1, 1, 2, 3, 5, 8, 2.5])} for c in cs]
    m["recipes"] = []
    for i in range(r.choice([0, 1, 1, 2, 3])):
        n = r.choice([1, 2, 3])
        ns = sorted(r.sample(list(NUCS), n))
        m["recipes"].append({"name": "rc%d" % i, "basis": r.choice(["mass", "mass", "atom"]), "w": [list(x) for x in zip(ns, parts(r, n))]})
    m["pkgs"] = []
    for i in range(r.choice([0, 0, 1, 2])):
        p = {"name": "pk%d" % i}
        if r.random() < 0.7: p["lo"] = r.choice([0.0, 0.5, 1.0])
        if r.random() < 0.7: p["hi"] = r.choice([1.0, 2.0, 4.25])
        if r.random() < 0.6: p["strat"] = r.choice(["first", "equal"])
        m["pkgs"].append(p)
    m["tus"] = []
    for i in range(r.choice([0, 0, 1, 2])):
        p = {"name": "tu%d" % i}
        if r.random() < 0.7: p["lo"] = r.choice([0, 1, 2])
        if r.random() < 0.7: p["hi"] = r.choice([2, 3, 7])
        if r.random() < 0.6: p["strat"] = r.choice(["first", "equal", "hybrid"])
        m["tus"].append(p)

    def proto(name, kind):
        d = {"name": name, "kind": kind, "life": -1 if r.random() < 0.6 else r.choice([1, 2, 3, 5]), "val": r.randint(-5, 40),
             "txt": r.choice(["t1", "Zed", "a<b", "x y", "-"])}
        if r.random() < 0.6: d["role"] = r.choice([0, 1, 2]) if kind == "Facility" else r.choice([0, 3])
        if r.random() < 0.6: d["num"] = r.choice([0.5, -3.0, 1e-9, 123456.789])
        return d
    fs = [proto("f%d" % i, "Facility") for i in range(r.choice([1, 1, 2, 3]))]
    rs, ins, tree = [], [], []
    for i in range(r.choice([1, 1, 1, 2])):
        rp = proto("r%d" % i, "Region")
        rp["life"] = -1 if r.random() < 0.8 else rp["life"]
        rs.append(rp)
        kids = []
        for j in range(r.choice([1, 1, 2])):
            ip = proto("i%d%d" % (i, j), "Inst")
            ip["life"] = -1 if r.random() < 0.8 else ip["life"]
            ins.append(ip)
            ents = []
            for k in range(r.choice([0, 1, 1, 2])):
                ents.append([r.choice(fs)["name"], r.choice([1, 1, 1, 2, 2, 0, 3, 3, r.choice([4, 5, 7, 12])])])
            kids.append([ip["name"], ents])
        tree.append([rp["name"], kids])
    m["protos"] = fs + rs + ins
    if m.get("solver", {}).get("kind") == "coin-or":
        for p in m["protos"]:
            if "role" in p: p["role"] = 0
    m["tree"] = tree
    m["paths"] = []
    for rn, kids in tree:
        m["paths"].append([rn])
        for iname, ents in kids:
            m["paths"].append([rn, iname])
            for fn, n in ents:
                m["paths"] += [[rn, iname, fn]] * n
    return m


def tf(r, b):
    return r.choice(["true", "1"]) if b else r.choice(["false", "0"])


def el(n, v):
    return "<%s>%s</%s>" % (n, escape(str(v)), n)


def shuffled(r, xs):
    xs = list(xs)
    r.shuffle(xs)
    return xs


def xml(r, m, flat=False, defect=None):
    """The model as an input file."""
    c = [el("duration", m["dur"]), el("startmonth", m["m0"]), el("startyear", m["y0"])]
    if "handle" in m: c.append(el("simhandle", m["handle"]))
    if "decay" in m: c.append(el("decay", m["decay"]))
    for k, n in (("dt", "dt"), ("seed", "seed"), ("stride", "stride")):
        if k in m: c.append(el(n, m[k]))
    if "eps" in m: c.append(el("tolerance_generic", repr(m["eps"])))
    if "epsr" in m: c.append(el("tolerance_resource", repr(m["epsr"])))
    if "ei" in m: c.append(el("explicit_inventory", tf(r, m["ei"])))
    if "eic" in m: c.append(el("explicit_inventory_compact", tf(r, m["eic"])))
    if "solver" in m:
        s = ""
        if "kind" in m["solver"]: s += "<config><%s/></config>" % m["solver"]["kind"]
        if "excl" in m["solver"]: s += el("allow_exclusive_orders", tf(r, m["solver"]["excl"]))
        c.append("<solver>%s</solver>" % s)
    body = ["<control>%s</control>" % "".join(shuffled(r, c))]
    body.append("<archetypes>%s</archetypes>" % "".join(
        shuffled(r, ["<spec><lib>v</lib><name>%s</name>%s</spec>" % (n, el("alias", a) if a != n else "") for n, a in ALIAS(m)])))
    al = {k: a for (n, a), k in zip(ALIAS(m), ("Region", "Inst", "Facility"))}
    for x in m["commods"]:
        body.append("<commodity>%s</commodity>" % (el("name", x["name"]) + el("solution_priority", x["prio"])))
    for x in m["recipes"]:
        sc = r.choice([1, 0.5, 0.015625, 3])
        body.append("<recipe>%s</recipe>" % "".join([el("name", x["name"]), el("basis", x["basis"])] + shuffled(
            r, ["<nuclide>%s</nuclide>" % (el("id", r.choice(NUCS[n])) + el("comp", repr(w * sc))) for n, w in x["w"]])))
    for tag, lst in (("package", m["pkgs"]), ("transportunit", m["tus"])):
        for x in lst:
            body.append("<%s>%s</%s>" % (tag, "".join([el("name", x["name"])] + shuffled(
                r, [el(n, x[k]) for k, n in (("lo", "fill_min"), ("hi", "fill_max"), ("strat", "strategy")) if k in x])), tag))

    def conf(p):
        fs = [el("val", p["val"]), el("txt", p["txt"])]
        if "role" in p: fs.append(el("role", p["role"]))
        if "num" in p: fs.append(el("num", repr(p["num"])))
        return [el("name", p["name"])] + ([el("lifetime", p["life"])] if p["life"] != -1 else []) + [
            "<config><%s>%s</%s></config>" % (al[p["kind"]], "".join(shuffled(r, fs)), al[p["kind"]])]
    P = {p["name"]: p for p in m["protos"]}
    if flat:
        for p in m["protos"]:
            body.append("<prototype>%s</prototype>" % "".join(shuffled(r, conf(p))))
        names = {}
        ags = []
        k = 0

        def add(path, parent):
            nonlocal k
            k += 1
            nm = "%s%d" % (r.choice("abcxyz"), k)
            ags.append("<agent>%s</agent>" % "".join([el("name", nm), el("prototype", path)] + ([el("parent", parent)] if parent else [])))
            return nm
        for rn, kids in m["tree"]:
            a = add(rn, None)
            for iname, ents in kids:
                b = add(iname, a)
                for fn, n in ents:
                    for _ in range(n):
                        add(fn, b)
        body += ags
    else:
        for p in m["protos"]:
            if p["kind"] == "Facility":
                body.append("<facility>%s</facility>" % "".join(shuffled(r, conf(p))))
        for rn, kids in m["tree"]:
            x = conf(P[rn])
            for iname, ents in kids:
                y = conf(P[iname])
                if ents:
                    y.append("<initialfacilitylist>%s</initialfacilitylist>" % "".join("<entry>%s</entry>" % (el("prototype", f) + el("number", n)) for f, n in ents))
                x.append("<institution>%s</institution>" % "".join(y))
            body.append("<region>%s</region>" % "".join(x))
    # order of sections is free, but same-named sections keep theirs
    t = "\n".join(body)
    return "<simulation>%s</simulation>" % t


def ALIAS(m):
    return m["alias"]


DEFECTS = ["proto", "dup", "month", "pkgdup", "negprio", "elem", "type", "missing", "nuc", "basis", "badalias", "solver", "pkglimits", "novalue"]


def breakit(r, m, t):
    """A file the loader must refuse."""
    d = r.choice(DEFECTS)
    if d == "proto":
        if "<initialfacilitylist>" not in t: return None
        i = t.index("<prototype>", t.index("<initialfacilitylist>"))
        j = t.index("</number>", i)
        return t[:i] + "<prototype>nosuch</prototype><number>1" + t[j:]
    if d == "dup":
        i = t.index("<facility>")
        j = t.index("</facility>") + len("</facility>")
        return t[:j] + t[i:j] + t[j:]
    if d == "month": return t.replace("<startmonth>%d<" % m["m0"], "<startmonth>%d<" % r.choice([0, 13, 99]))
    if d == "pkgdup":
        x = "<package><name>pkz</name></package>"
        return t.replace("</simulation>", x + x + "</simulation>")
    if d == "elem": return t.replace("</control>", "<extra/></control>")
    if d == "type": return t.replace("<duration>", "<duration>x")
    if d == "missing": return t.replace("<startyear>%d</startyear>" % m["y0"], "")
    if d == "nuc": return t.replace("</simulation>", "<recipe><name>q</name><basis>mass</basis><nuclide><id>Xx999</id><comp>1</comp></nuclide></recipe></simulation>")
    if d == "basis": return t.replace("</simulation>", "<recipe><name>q</name><basis>volume</basis><nuclide><id>U235</id><comp>1</comp></nuclide></recipe></simulation>")
    if d == "badalias": return t.replace("<val>", "<vall>", 1).replace("</val>", "</vall>", 1)
    if d == "solver": return t.replace("</control>", "<solver><config><simplex/></config></solver></control>") if "<solver>" not in t else None
    if d == "pkglimits": return t.replace("</simulation>", "<package><name>pkz</name><fill_min>5</fill_min><fill_max>2</fill_max></package></simulation>")
    if d == "novalue": return t.replace("<val>", "<val>z", 1)
    return None


def hexs(s):
    return s.encode().hex()


def prep(r, m):
    m["alias"] = [["R", r.choice(["R", "MyReg"])], ["I", r.choice(["I", "Owner"])], ["F", r.choice(["F", "plant"])]]


def gen(r, focus):
    m = model(r)
    prep(r, m)
    if focus == "restart":
        m["dur"] = r.choice([3, 4, 5, 6, 8])
        if not m["recipes"]: m["recipes"] = [{"name": "rc0", "basis": "mass", "w": [[92235, 64]]}]
    flat = r.random() < 0.3
    t = xml(r, m, flat)
    if focus == "load" and r.random() < 0.25 and not flat:
        b = breakit(r, m, t)
        if b and b != t:
            t = b
            m["ok"] = False
    cs = [c["name"] for c in m["commods"]]
    extra = [c for c in ["c", "ore", "zz"] if c not in cs][:1]
    order = shuffled(r, cs + extra)
    m["ask"] = order
    out = ["model " + json.dumps(jmodel(m)), "xml " + hexs(t)]
    if flat: out.append("flat")
    out.append("back " + r.choice(["sqlite", "mem", "mem", "h5"] if focus != "load" else ["mem", "mem", "mem", "h5"]))

    def names(xs): return ",".join(xs) or "-"
    out.append("names %s %s %s %s" % (names([x["name"] for x in m["recipes"]]), names([x["name"] for x in m["pkgs"]]), names([x["name"] for x in m["tus"]]), names(order)))
    if focus == "load":
        if r.random() < 0.1:
            o = model(r); prep(r, o); o["dur"] = 1
            out.append("other " + hexs(xml(r, o)))
        out.append("run")
        return out
    if r.random() < 0.15:
        o = model(r)
        prep(r, o)
        out.append("other " + hexs(xml(r, o)))
    protos = [p["name"] for p in m["protos"]]
    facs = [p["name"] for p in m["protos"] if p["kind"] == "Facility"]
    insts = [p["name"] for p in m["protos"] if p["kind"] == "Inst"]
    pk = ["unpackaged"] + [p["name"] for p in m["pkgs"]]
    # the ids of product qualities are shared by all simulations of a process,
    # which runs many histories: give each history its own qualities
    ql = ["steel%d" % r.getrandbits(40), "wood%d" % r.getrandbits(40)]
    dur = m["dur"]
    hot = r.choice(["sched", "res", "mix", "mix"])
    for t_ in range(dur):
        for _ in range(r.choice([1, 2, 3, 5])):
            p = r.random()
            if p < (0.45 if hot == "sched" else 0.15):
                out.append("at %d sb %s %d %d" % (t_, r.choice(facs + facs + insts), r.choice([-1, 0, 1, 2, 3]), r.choice([1, 1, 2, 2, 3, 4])))
            elif p < (0.75 if hot == "sched" else 0.3):
                out.append("at %d sd %s %d %d" % (t_, r.choice(["F", "F", "F", "I", "R"]), r.randint(0, 6), r.choice([0, 1, 1, 2, 2, 3, 4])))
            elif p < 0.4 or (hot == "sched" and p < 0.85):
                out.append("at %d set %d %d %d %s %s" % (t_, r.randint(0, 9), r.randint(-9, 99), 0 if m.get("solver", {}).get("kind") == "coin-or" else r.choice([0, 1, 1, 2, 2]), r.choice(["q", "word", "Z9"]), r.choice(["0.5", "2", "1e-3"])))
            elif p < 0.7:
                if r.random() < 0.65:
                    out.append("at %d mk %d m %d %s %s" % (t_, r.randint(0, 6), r.choice([32, 64, 96, 128, 200]), r.choice(m["recipes"])["name"], r.choice(pk)))
                else:
                    out.append("at %d mk %d p %d %s %s" % (t_, r.randint(0, 6), r.choice([32, 64, 128, 200]), r.choice(ql), r.choice(pk)))
            elif p < 0.8:
                out.append("at %d %s %d" % (t_, r.choice(["cut", "join"]), r.randint(0, 6)))
            elif p < 0.9:
                out.append("at %d mv %d %d" % (t_, r.randint(0, 6), r.randint(0, 6)))
            elif p < 0.93:
                out.append("at %d repack %d %s" % (t_, r.randint(0, 6), r.choice(pk)))
            elif p < 0.94 and t_ > 1:
                out.append("at %d kill" % t_)
        if r.random() < 0.6:
            out.append("at %d snap" % t_)
    out.append("run")
    for _ in range(r.choice([1, 1, 2, 3])):
        if r.random() < 0.2: out.append("reopen")
        out.append("restart %d" % r.randint(0, 20))
    return out


def jmodel(m):
    """The model as the specification reads it: numbers with fractions become text."""
    d = {k: m[k] for k in ("ok", "dur", "y0", "m0", "handle", "decay", "ei", "eic") if k in m}
    for k in ("dt", "seed", "stride"):
        if k in m: d[k] = str(m[k])
    for k in ("eps", "epsr"):
        if k in m: d[k] = dstr(m[k])
    if "solver" in m: d["solver"] = m["solver"]
    d["commods"] = [{"name": c["name"], "prio": int(c["prio"] * 10)} for c in m["commods"]]
    d["ask"] = m["ask"]
    d["recipes"] = m["recipes"]
    d["pkgs"] = [dict(p, **{k: dstr(p[k]) for k in ("lo", "hi") if k in p}) for p in m["pkgs"]]
    d["tus"] = m["tus"]
    ps = []
    for p in m["protos"]:
        q = dict(p)
        q["spec"] = {"Region": ":v:R", "Inst": ":v:I", "Facility": ":v:F"}[p["kind"]]
        q["num"] = dstr(p.get("num", 0.25))
        q["role"] = p.get("role", 0)
        ps.append(q)
    d["protos"] = ps
    d["paths"] = m["paths"]
    return d


def scheduled(r, beh):
    """A behaviour of MCSim as a script: its schedule, with a snapshot and a restart at every step."""
    def P(n, k, life): return {"name": n, "kind": k, "life": life, "val": r.randint(0, 9), "txt": "t"}
    m = {"ok": True, "dur": r.choice([4, 5]), "y0": 2000, "m0": 1, "commods": [], "recipes": [], "pkgs": [], "tus": [], "ask": ["c"],
         "protos": [P("f0", "Facility", -1), P("f1", "Facility", 2), P("r0", "Region", -1), P("i00", "Inst", -1)],
         "tree": [["r0", [["i00", []]]]], "paths": [["r0"], ["r0", "i00"]]}
    prep(r, m)
    out = ["model " + json.dumps(jmodel(m)), "xml " + hexs(xml(r, m)), "back " + r.choice(["mem", "mem", "mem", "h5"]), "names - - - c"]
    out += ["at %d %s %s %d %d" % (t, op, x, k, d) for op, t, x, k, d in beh]
    out += ["at %d snap" % t for t in range(m["dur"])]
    out.append("run")
    out += ["restart %d" % k for k in r.sample(range(m["dur"]), 2 if r.random() < 0.8 else m["dur"])]
    return out
