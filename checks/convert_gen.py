"""Documents for the converter driver, and independent parsers for what it returns."""
import json
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape

TEXTS = ["t", "0", "1", "17", "-3", "2.5", "1e-7", "0.1", "1.23456789012", "6.02214076e23", "true", "false", "null", "plain words", "a<b", "x & y",
         "\"quoted\"", "it's", "back\\slash", "tab\there", "caf\u00e9", "\u65e5\u672c", "]]>", "  padded ", "{}", "[1, 2]", "a/b", "&amp;", "<!-- no -->", "#tag", "5 apples"]
NUMS = [0, 1, -1, 7, 42, 2147483647, -2147483648, 4294967295, 9007199254740991, 0.5, -2.25, 0.1, 1.23456789012, 3.141592653589793, 1e-7, 1e300, 6.02214076e23, 123456.789, 1234567, 100000000, 0.1 + 0.2, 2 / 3]
NAMES = ["a", "b", "name", "val", "simulation", "item", "x1", "long_name", "A"]


def hx(s):
    return s.encode("utf-8").hex()


def num(t):
    try:
        f = float(t)
    except ValueError:
        return ""
    return f.hex() if "_" not in t and t.strip() == t else ""


def leaf(t):
    return {"v": t, "x": num(t), "c": []}


# ---- what came out
def xtree(e):
    k = list(e)
    if not k:
        return leaf(e.text or "")
    return {"v": "", "x": "", "c": [{"n": c.tag, "e": xtree(c)} for c in k]}


def jtree(j):
    z = {"k": "n", "v": "", "x": "", "m": []}
    if j is None:
        return z
    if isinstance(j, bool):
        return dict(z, k="b", v="true" if j else "false")
    if isinstance(j, (int, float)):
        return dict(z, k="d", x=float(j).hex())
    if isinstance(j, str):
        return dict(z, k="s", v=j, x=num(j))
    if isinstance(j, list):
        return dict(z, k="a", m=[{"n": "", "e": jtree(v)} for v in j])
    return dict(z, k="o", m=[{"n": n, "e": jtree(v)} for n, v in j.items()])


def read(fmt, hexs):
    s = bytes.fromhex(hexs).decode("utf-8")
    if fmt == "x":
        r = ET.fromstring(s)
        return {"v": "", "x": "", "c": [{"n": r.tag, "e": xtree(r)}]}
    j = json.loads(s)
    if not isinstance(j, dict):
        raise ValueError("not an object")
    return jtree(j)


def decode(h):
    """Replace the texts in a recorded history by what an independent parser reads in them."""
    for e in h["ev"]:
        if "hex" not in e:
            continue
        e["fmt"] = e.get("fmt") or ("j" if e["op"] == "x2j" else "x")
        e["why"] = ""
        e["t"] = []
        if e.get("res", "ok") == "ok":
            try:
                e["t"] = read(e["fmt"], e["hex"])
            except Exception as x:
                e["res"] = "unreadable"
                e["why"] = str(x)[:100]
    return h


# ---- what goes in
def xtext(rng, t, depth=0, pretty=True):
    """XML source of a tree."""
    if not t["c"]:
        return escape(t["v"])
    o = ""
    for c in t["c"]:
        b = xtext(rng, c["e"], depth + 1, pretty)
        ind = "\n" + "  " * (depth + 1) if pretty else ""
        if rng is not None and pretty and rng.random() < .05:
            o += ind + "<!-- a comment -->"
        o += ind + ("<%s>%s</%s>" % (c["n"], b, c["n"]) if b or rng is None or rng.random() < .5 else "<%s/>" % c["n"])
    return o + ("\n" + "  " * depth if pretty else "")


def rtree(rng, depth):
    if depth == 0 or rng.random() < .3:
        return leaf(rng.choice(TEXTS) if rng.random() < .85 else "")
    pool = rng.sample(NAMES, rng.choice([1, 2, 3]))
    return {"v": "", "x": "", "c": [{"n": rng.choice(pool), "e": rtree(rng, depth - 1)} for _ in range(rng.choice([1, 2, 3, 4]))]}


def rjson(rng, depth, item=False):
    p = rng.random()
    if depth == 0 or p < .35:
        q = rng.random()
        return None if q < .1 else rng.random() < .5 if q < .2 else rng.choice(NUMS) if q < .5 else rng.choice(TEXTS)
    if p < .6 and not item:
        return [rjson(rng, depth - 1, True) for _ in range(rng.choice([0, 1, 2, 3]))]
    o = {}
    for n in rng.sample(NAMES, rng.choice([1, 2, 3])):
        o[n] = rjson(rng, depth - 1)
    return o


def chain(rng, fmt):
    L = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        L.append("x2j" if fmt == "x" else "j2x")
        fmt = "j" if fmt == "x" else "x"
    return L


def xml_script(rng, t, root="simulation", all_=False):
    s = ("<?xml version=\"1.0\"?>\n" if rng.random() < .3 else "") + "<%s>%s</%s>" % (root, xtext(rng, t, 0, rng.random() < .7), root)
    return ["doc x " + hx(s)] + (["x2j", "j2x", "x2j"] if all_ else chain(rng, "x"))


def gen(rng):
    if rng.random() < .5:
        t = rtree(rng, rng.choice([1, 2, 3, 4]))
        while not t["c"]:
            t = rtree(rng, 3)
        return xml_script(rng, t)
    o = rjson(rng, 0)
    while not isinstance(o, dict):
        o = rjson(rng, rng.choice([1, 2, 3, 4]))
    s = json.dumps({"simulation": o}, indent=rng.choice([None, 1, 2]), ensure_ascii=rng.random() < .5)
    return ["doc j " + hx(s)] + chain(rng, "j")
