"""Archetype classes from declarations, their input documents, and operation scripts."""
import json, math

MANY = ("vector", "list", "set")
CPP = {"int": "int", "nuc": "int", "string": "std::string", "double": "double", "float": "float", "bool": "bool"}
SQLOK = set("""int nuc string double float bool vector<int> vector<nuc> vector<double> vector<string> set<int> set<string> list<int> list<string>
list<pair<int,int>> map<int,int> map<int,double> map<nuc,double> map<int,string> map<string,int> map<string,double> map<string,string>
map<string,vector<double>> map<string,map<int,double>> map<string,map<nuc,double>> map<string,pair<double,map<int,double>>>
map<int,map<string,double>> map<string,vector<pair<int,pair<string,string>>>> map<string,pair<string,vector<double>>>
map<string,map<string,int>> map<string,map<string,double>> vector<pair<pair<double,double>,map<string,double>>> map<pair<string,string>,int>""".split())
NUCS = {"U235": 922350000, "92238": 922380000, "942390000": 942390000, "h1": 10010000, "Am242M": 952420001}
WORDS = ["a", "spent fuel", "x;y{z}", "100%", "it's", "A-1", "q,r", "<b>&c", " lead", "5", "true", "zz'z", "#pragma x", "// no"]


def plain(t):
    return t["k"] not in MANY + ("map", "pair")


def short(t):
    return t["k"] if plain(t) else "%s<%s>" % (t["k"], ",".join(short(x) for x in t["s"]))


def cpp(t):
    if plain(t):
        return CPP[t["k"]]
    return "std::%s<%s>" % (t["k"], ", ".join(cpp(x) for x in t["s"]))


def num(x):
    return "%.17g" % x


def leafval(k, x):
    return {"v": {"bool": lambda: "b1" if x else "b0", "int": lambda: "i%d" % x, "nuc": lambda: "i%d" % NUCS.get(x, -1),
                  "float": lambda: "d" + num(x), "double": lambda: "d" + num(x), "string": lambda: "s" + x}[k](), "s": []}


def pick(rng, k):
    if k == "bool":
        return rng.random() < .5
    if k == "int":
        return rng.choice([0, 1, -1, 7, 42, -300, 2147483647, -2147483648, rng.randrange(-99, 99)])
    if k == "nuc":
        return rng.choice(sorted(NUCS))
    if k in ("float", "double"):
        return rng.choice([0.0, 1.0, -2.5, 0.125, 1e6, rng.randrange(-999, 999) / 8.0] + ([1234567.890625, 0.1, 1e-9, -6.02214076e23] if k == "double" else []))
    return rng.choice(WORDS + ["w%d" % rng.randrange(99)])


def pyval(rng, t, empty=True):
    """A Python value of a type (the form a declared default has)."""
    if plain(t):
        return pick(rng, t["k"])
    if t["k"] == "pair":
        return [pyval(rng, t["s"][0], empty), pyval(rng, t["s"][1], empty)]
    n = rng.choice([0, 1, 2, 3] if empty else [1, 2, 3])
    if t["k"] == "map":
        o = {}
        for _ in range(n):
            k = pyval(rng, t["s"][0], empty)
            o[json.dumps(k)] = (k, pyval(rng, t["s"][1], empty))
        # keys that mean the same (nuclides) only once
        seen, out = set(), []
        for k, v in o.values():
            m = json.dumps(val(t["s"][0], k))
            if m not in seen:
                seen.add(m)
                out.append((k, v))
        return out
    return [pyval(rng, t["s"][0], empty) for _ in range(n)]


def val(t, x):
    if plain(t):
        return leafval(t["k"], x)
    if t["k"] == "pair":
        return {"v": "", "s": [val(t["s"][0], x[0]), val(t["s"][1], x[1])]}
    if t["k"] == "map":
        return {"v": "", "s": [{"v": "", "s": [val(t["s"][0], k), val(t["s"][1], v)]} for k, v in x]}
    return {"v": "", "s": [val(t["s"][0], e) for e in x]}


def lit(t, x):
    """Python source of a default."""
    if plain(t):
        return repr(x)
    if t["k"] == "map":
        return "{" + ", ".join("%s: %s" % (lit(t["s"][0], k), lit(t["s"][1], v)) for k, v in x) + "}"
    if t["k"] == "pair":
        return "[%s, %s]" % (lit(t["s"][0], x[0]), lit(t["s"][1], x[1]))
    return "[" + ", ".join(lit(t["s"][0], e) for e in x) + "]"


def names(rng, t, st, at, var):
    """Declared names (record for the specification)."""
    no = {"n": "", "item": "", "s": []}
    if st == "none":
        return no
    if st == "top":
        return dict(no, n="alias_" + var)
    if st == "own":
        return dict(no, n=var)
    return {"n": ("x%s_%s" % (at, var)) if st == "full" or plain(t) or not at else "", "item": "e%s" % at if st == "full" and t["k"] == "map" else "",
            "s": [names(rng, e, st, at + str(i + 1), var) for i, e in enumerate(t["s"])]}


def alias_src(rng, t, a, top=True):
    """The alias annotation that declares these names, or None."""
    if plain(t):
        return repr(a["n"]) if a["n"] else "None"
    own = repr(a["n"]) if a["n"] else "None"
    subs = [alias_src(rng, e, s, False) for e, s in zip(t["s"], a["s"])]
    if not subs and a["n"]:
        return own if rng.random() < .5 else "[%s]" % own
    if t["k"] == "map" and a["item"]:
        own = "[%s, %r]" % (own, a["item"])
    if own == "None" and all(x == "None" for x in subs):
        return "None"
    return "[%s]" % ", ".join([own] + subs)


def uitype_src(t):
    """uitype annotation; None when there is nothing to say."""
    if t["k"] == "nuc":
        return "'nuclide'"
    if plain(t):
        return None
    subs = [uitype_src(e) for e in t["s"]]
    if all(s is None for s in subs):
        return None
    return "[%s]" % ", ".join(["'oneOrMore'"] + [s or "None" for s in subs])


class Cls:
    """One generated archetype."""

    def __init__(self, rng, name, decls, bufs=True):
        self.name = name
        self.ns = rng.choice(["", "gen", "gen"])
        self.base = rng.choice(["Facility", "Facility", "Institution", "Region"])
        self.vars, self.src = [], []
        self.sql = all(short(d["t"]) in SQLOK for d in decls)
        texts = ["", "plain", "with \\\"quotes\\\" and \\\\ and {braces}", "a long text that goes on and on so that it must be wrapped over more than one line of the generated code, twice", "caf\\u00e9\\n\\ttab"]
        if all(d["mode"] == "int" for d in decls):
            # an archetype with nothing to give has a schema no document satisfies (known finding)
            decls = [dict(d, mode="def") for d in decls[:1]] + decls[1:] or [{"t": {"k": "int", "s": []}, "mode": "def", "style": "none"}]
        for i, d in enumerate(decls):
            v = "v%d" % i
            t, mode = d["t"], d["mode"]
            if mode == "def" and t["k"] == "map" and not plain(t["s"][0]):
                mode = "req"
            ann = []
            dv = pyval(rng, t)
            a = names(rng, t, d["style"], "", v)
            if mode != "req":
                if mode == "int" and t["k"] == "map" and not plain(t["s"][0]):
                    dv = []
                ann.append('"default": %s' % lit(t, dv))
            if mode == "int":
                ann.append('"internal": True')
            al = alias_src(rng, t, a)
            if al != "None":
                ann.append('"alias": %s' % al)
            ui = uitype_src(t)
            if ui:
                ann.append('"uitype": %s' % ui)
            doc = rng.choice(texts)
            units = rng.choice(["", "kg", "kg/s"])
            if doc:
                ann.append('"doc": "%s"' % doc)
            if units:
                ann.append('"units": "%s"' % units)
            if rng.random() < .15:
                ann.append('"tooltip": "tip %d"' % i)
            if rng.random() < .15:
                ann.append('"uilabel": "Label %d"' % i)
            if not plain(t) and rng.random() < .15:
                ann.append('"shape": [-1]')
            elif not self.sql and t["k"] == "string" and rng.random() < .2:
                ann.append('"shape": [24]')
            rng.shuffle(ann)
            self.src.append(("{" + ", ".join(ann) + "}", cpp(t) + " " + v))
            self.vars.append({"n": v, "t": t, "a": a, "mode": mode, "d": val(t, dv if mode != "req" else _zero(t)),
                              "doc": eval('"%s"' % doc), "units": units})
        self.bufs = []
        if bufs:
            for i in range(rng.choice([0, 0, 1, 2])):
                kind = rng.choice(["mat", "prod"])
                caps = [x["n"] for x in self.vars if x["t"]["k"] == "double" and x["mode"] == "req"]
                b = {"n": "buf%d" % i, "kind": kind, "cap": "d-1", "capvar": ""}
                ann = "{}"
                p = rng.random()
                if p < .35:
                    c = rng.choice([16, 100, 1000.5])
                    b["cap"] = "d" + num(c)
                    ann = '{"capacity": %r}' % c
                elif p < .7 and caps:
                    b["capvar"] = rng.choice(caps)
                    ann = '{"capacity": "%s"}' % b["capvar"]
                self.bufs.append(b)
                self.src.append((ann, "cyclus::toolkit::ResBuf<cyclus::%s> %s" % ("Material" if kind == "mat" else "Product", b["n"])))
        self.capvars = {b["capvar"] for b in self.bufs}
        self.doc = rng.choice(texts[1:])
        self.note = rng.random() < .6
        self.style = rng.choice(["all", "all", "split", "each"])
        order = list(range(len(self.src)))
        if rng.random() < .3:
            rng.shuffle(order)
        self.src = [self.src[i] for i in order]
        self.kind = rng.choice(["sql", "h5"]) if self.sql else "h5"

    def decl(self):
        return {"vars": self.vars, "bufs": [{"n": b["n"], "cap": b["cap"], "capvar": b["capvar"]} for b in self.bufs],
                "entity": self.base.lower(), "doc": eval('"%s"' % self.doc) if self.note else ""}

    def qual(self):
        return (self.ns + "::" if self.ns else "") + self.name

    def header(self):
        o = []
        if self.ns:
            o.append("namespace %s {" % self.ns)
        o += ["class %s : public cyclus::%s {" % (self.name, self.base), " public:",
              "  %s(cyclus::Context* ctx) : cyclus::%s(ctx) {}" % (self.name, self.base), "  virtual ~%s() {}" % self.name]
        METH = ["clone", "initfromcopy", "initfromdb", "infiletodb", "schema", "annotations", "snapshot", "snapshotinv", "initinv"]
        if self.style == "all":
            o.append("  #pragma cyclus")
        elif self.style == "split":
            o.append("  #pragma cyclus decl")
        else:
            o += ["  #pragma cyclus decl " + m for m in METH]
        if self.note:
            o.append('  #pragma cyclus note {"doc": "%s"}' % self.doc)
        if self.base == "Facility":
            o += ["  virtual void Tick() {}", "  virtual void Tock() {}"]
        for ann, d in self.src:
            o += ["  #pragma cyclus var " + ann, "  %s;" % d]
        o.append("};")
        if self.style != "all":
            o += ["#pragma cyclus def %s %s" % (m, self.qual()) for m in METH]
        if self.ns:
            o.append("}  // namespace")
        return "\n".join(o) + "\n"

    def registry(self):
        q = "::" + self.qual()
        v = " ".join('f("%s", a.%s);' % (x["n"], x["n"]) for x in self.vars)
        b = " ".join('f("%s", a.%s);' % (x["n"], x["n"]) for x in self.bufs)
        return ("template <class F> void visit(%s& a, F& f) { %s }\ntemplate <class F> void visitbufs(%s& a, F& f) { %s }\n" % (q, v, q, b),
                'static arch::Reg<%s> reg_%s("%s");\n' % (q, self.name, self.name))


def _zero(t):
    return {"bool": False, "int": 0, "nuc": "U235", "float": 0.0, "double": 0.0, "string": "-"}[t["k"]] if plain(t) else (
        [_zero(t["s"][0]), _zero(t["s"][1])] if t["k"] == "pair" else [])


# ------------------------------------------------------------------ documents
def readings(s):
    c = s.strip(" \t\n")
    r = {"bool": "bad", "int": "bad", "nuc": "bad", "float": "bad", "double": "bad", "string": "s" + s}
    if c in ("true", "1"):
        r["bool"] = "b1"
    if c in ("false", "0"):
        r["bool"] = "b0"
    try:
        if c and c.lstrip("+-").isdigit() and c.lstrip("+-").isascii():
            n = int(c)
            if -2**31 <= n < 2**31:
                r["int"] = "i%d" % n
        f = float(c)
        if not math.isnan(f) and not math.isinf(f) and "_" not in c:
            r["float"] = r["double"] = "d" + num(f)
    except ValueError:
        pass
    if s in NUCS:
        r["nuc"] = "i%d" % NUCS[s]
    return r


NOTEXT = {"bool": "bad", "int": "bad", "nuc": "bad", "float": "bad", "double": "bad", "string": "bad"}


def text(rng, k, x):
    if k == "bool":
        s = rng.choice(["true", "1"] if x else ["false", "0"])
    elif k == "int":
        s = "%d" % x
    elif k in ("float", "double"):
        s = rng.choice([num(x), repr(x), "%e" % x if x == float("%e" % x) else num(x)])
    else:
        return x
    return rng.choice([s, s, s, " " + s, s + "\n", "\t%s " % s])


def node(rng, t, a, nm, x):
    tag = a["n"] or nm
    sub = lambda i: a["s"][i] if i < len(a["s"]) else {"n": "", "item": "", "s": []}
    if plain(t):
        s = text(rng, t["k"], x)
        return {"t": tag, "x": readings(s), "c": [], "_": s}
    if t["k"] == "pair":
        c = [node(rng, t["s"][0], sub(0), "first", x[0]), node(rng, t["s"][1], sub(1), "second", x[1])]
        if rng.random() < .3:
            c.reverse()
    elif t["k"] == "map":
        c = []
        for k, v in x:
            e = [node(rng, t["s"][0], sub(0), "key", k), node(rng, t["s"][1], sub(1), "val", v)]
            if rng.random() < .3:
                e.reverse()
            c.append({"t": a["item"] or "item", "x": NOTEXT, "c": e})
    else:
        c = [node(rng, t["s"][0], sub(0), "val", e) for e in x]
    return {"t": tag, "x": NOTEXT, "c": c}


def xml(n):
    if "_" in n:
        return "<%s>%s</%s>" % (n["t"], n["_"].replace("&", "&amp;").replace("<", "&lt;"), n["t"])
    return "<%s>%s</%s>" % (n["t"], "".join(xml(c) for c in n["c"]), n["t"])


def strip(n):
    return {"t": n["t"], "x": n["x"], "c": [strip(c) for c in n["c"]]}


def good_doc(rng, c, p=.5):
    d = []
    for v in c.vars:
        if v["mode"] == "req" or (v["mode"] == "def" and rng.random() < p):
            x = pyval(rng, v["t"], False)
            if v["n"] in c.capvars:
                x = rng.choice([16.0, 64.5])
            d.append(node(rng, v["t"], v["a"], v["n"], x))
    if rng.random() < .7:
        rng.shuffle(d)
    return d


def walk(n, out):
    out.append(n)
    for c in n["c"]:
        walk(c, out)
    return out


def bad_doc(rng, c):
    """A document that is usually (not always) unacceptable: the specification says."""
    d = json.loads(json.dumps(good_doc(rng, c, .8)))
    for _ in range(rng.choice([1, 1, 2])):
        w = rng.randrange(8)
        nodes = [n for x in d for n in walk(x, [])]
        if w == 0 and d:
            d.pop(rng.randrange(len(d)))
        elif w == 1 and d:
            d.append(json.loads(json.dumps(rng.choice(d))))
        elif w == 2:
            d.append({"t": rng.choice(["nosuch", "v0", "v1", "val", "buf0"]), "x": readings("5"), "c": [], "_": "5"})
        elif w == 3 and nodes:
            n = rng.choice(nodes)
            if "_" in n:
                n["_"] = rng.choice(["abc", "1.5", "true", "-3", "99999999999", "0", "2", "1e3", "0x10", "TRUE", "1,5"])
                n["x"] = dict(readings(n["_"]), nuc=n["x"]["nuc"])
        elif w == 4 and nodes:
            n = rng.choice(nodes)
            n["t"] = rng.choice(["val", "key", "item", "first", "second", "zz"])
        elif w == 5 and nodes:
            n = rng.choice(nodes)
            if n["c"]:
                n["c"].pop(rng.randrange(len(n["c"])))
        elif w == 6 and nodes:
            n = rng.choice(nodes)
            if n["c"]:
                n["c"].append(json.loads(json.dumps(rng.choice(n["c"]))))
        elif w == 7:
            v = rng.choice(c.vars) if c.vars else None
            if v and v["mode"] == "int":
                d.append(node(rng, v["t"], v["a"], v["n"], pyval(rng, v["t"], False)))
    # text of nuclides is not changed, and no empty text is written
    return d


def config(c, d):
    return "<config><%s>%s</%s></config>" % (c.name, "".join(xml(n) for n in d), c.name)


def J(op, **kw):
    return op + " " + json.dumps(kw)


def first(c):
    return [J("decl", cls=c.name, kind=c.kind, decl=c.decl())]


def valid(c, d):
    return J("valid", doc=[strip(n) for n in d], xml=config(c, d))


def load(rng, c, d, i):
    return J("load", doc=[strip(n) for n in d], xml=config(c, d), id=i, proto=rng.choice(["p1", "proto two"]), life=rng.choice([-1, 0, 7, 120]))


def setter(rng, c, i, v=None):
    v = v or rng.choice(c.vars)
    return J("set", id=i, var=v["n"], val=val(v["t"], pyval(rng, v["t"])))


def push(rng, c, i):
    b = rng.choice(c.bufs)
    return J("push", id=i, buf=b["n"], kind=b["kind"], q=rng.choice([1, 8, 20, 64]))


def documents(rng, c, n):
    """Validation of many documents, and loading of acceptable ones."""
    L = first(c) + [J("annot")]
    for _ in range(n):
        if rng.random() < .55:
            L.append(valid(c, bad_doc(rng, c)))
        else:
            d = good_doc(rng, c)
            L += [valid(c, d), load(rng, c, d, 1)]
    return L


def scheduled(rng, c, tr):
    """A schedule of the design model, on this archetype."""
    L = first(c)
    vs = {}
    for o in tr:
        if o[0] == "load":
            L.append(load(rng, c, good_doc(rng, c), o[1]))
        elif o[0] == "set" and c.vars:
            if o[2] not in vs:
                vs[o[2]] = rng.choice(c.vars)
            L.append(setter(rng, c, o[1], vs[o[2]]))
        elif o[0] == "push" and c.bufs:
            L.append(push(rng, c, o[1]))
        elif o[0] == "clone":
            L.append(J("clone", **{"from": o[1], "id": o[2]}))
        elif o[0] == "snap":
            L.append(J("snap", id=o[1], slot=1))
        elif o[0] == "restore":
            L.append(J("restore", id=o[1], slot=1))
    return L


def mixed(rng, c):
    L = first(c)
    L.append(load(rng, c, good_doc(rng, c), 1))
    for _ in range(rng.choice([6, 10, 14])):
        p = rng.random()
        i, j = rng.randint(1, 3), rng.randint(1, 3)
        if p < .15:
            L.append(load(rng, c, good_doc(rng, c), i))
        elif p < .4 and c.vars:
            L.append(setter(rng, c, i))
        elif p < .55 and c.bufs:
            L += [push(rng, c, i) for _ in range(rng.choice([1, 1, 2, 4, 5]))]
        elif p < .7 and i != j:
            L.append(J("clone", **{"from": i, "id": j}))
        elif p < .85:
            L.append(J("snap", id=i, slot=rng.randint(1, 2)))
        else:
            L.append(J("restore", id=i, slot=rng.randint(1, 2)))
    return L
