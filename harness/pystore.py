"""Drives the Python interface to recorders and databases (cyclus.lib, cyclus.memback, cyclus.typesystem).
Same script language and events as backend.cc; the types are named by their database type, and the table
of values of each is made from the structure the type system declares for it."""
import json, os, random, sys, uuid
sys.setdlopenflags(os.RTLD_LAZY)
sys.path.insert(0, os.environ["VH_PKG"])
import numpy as np
from cyclus import lib, memback
from cyclus import typesystem as ts

out = []


def emit(op, **kw):
    out.append(json.dumps(dict(op=op, **kw)))


# ---------------------------------------------------------------- values
INTS = [0, 1, -1, 2, 7, 97, 256, 65536, 2147483647, -2147483648, 12, 13, 14, 15]
FLTS = [float(np.float32(x)) for x in (0, 1, -1.5, 0.1, 3.25e10, 1e-20, 42, 43, 44, 1.0 / 3, 45)]
DBLS = [0.0, 1.0, -1.5, 0.1, 3.25e100, 1e-200, 42.0, 1.0 / 3, 1.0 / 3 + 1e-16, 2e299, -7.0, 5.0]
STRS = ["", "a", "b", "ab", "c", "bc", "abc", "it's", "x\"y<&>", "two words", "\u00e9t\u00e9", "semi;--", "1", "line\nbreak", "Keys"]


BYTES = False


def gen(n, r):
    if n == "bool":
        return r.random() < .5
    if n == "int":
        return r.choice(INTS)
    if n == "float":
        return r.choice(FLTS)
    if n == "double":
        return r.choice(DBLS)
    if n == "std::string":
        return r.choice(STRS)
    if n == "cyclus::Blob":
        b = (r.choice(STRS) or "blob").encode() if r.random() < .8 else b"z" * r.randint(300, 302)
        if BYTES and r.random() < .6:        # any bytes
            i = r.randrange(len(b) + 1)
            b = b[:i] + r.choice([b"\0", b"\0\0", b"\xff"]) + b[i:]
        return b
    if n == "boost::uuids::uuid":
        b = bytearray(r.randint(1, 3) for _ in range(16))
        if r.random() < .3:
            b[r.randrange(16)] = 0
        return uuid.UUID(bytes=bytes(b))
    k = n[0]
    if k == "std::pair":
        return (gen(n[1], r), gen(n[2], r))
    m = r.randrange(4)
    if k == "std::vector" or k == "std::list":
        return [gen(n[1], r) for _ in range(m)]
    if k == "std::set":
        return {gen(n[1], r) for _ in range(m)}
    if k == "std::map":
        return {gen(n[1], r): gen(n[2], r) for _ in range(m)}
    raise ValueError(n)


def canon(v, n):
    """v as a comparable value of structure n; an exception when it has another."""
    if n == "bool":
        assert isinstance(v, (bool, np.bool_)), v
        return bool(v)
    if n == "int":
        assert isinstance(v, (int, np.integer)) and not isinstance(v, bool), v
        return int(v)
    if n in ("float", "double"):
        assert isinstance(v, (float, np.floating)), v
        return float(v)
    if n == "std::string":
        assert isinstance(v, str), v
        return v
    if n == "cyclus::Blob":
        assert isinstance(v, bytes), v
        return v
    if n == "boost::uuids::uuid":
        assert isinstance(v, uuid.UUID), v
        return v.bytes
    k = n[0]
    if k == "std::pair":
        assert isinstance(v, tuple) and len(v) == 2, v
        return (canon(v[0], n[1]), canon(v[1], n[2]))
    if k in ("std::vector", "std::list"):
        assert isinstance(v, (list, tuple, np.ndarray)), v
        return ("seq",) + tuple(canon(x, n[1]) for x in v)
    if k == "std::set":
        assert isinstance(v, (set, frozenset)), v
        return ("set",) + tuple(sorted(canon(x, n[1]) for x in v))
    if k == "std::map":
        assert isinstance(v, dict), v
        return ("map",) + tuple(sorted(((canon(x, n[1]), canon(y, n[2])) for x, y in v.items()), key=repr))
    raise ValueError(n)


class Ty(object):
    all = {}

    def __init__(self, name):
        self.name = name
        base = name
        self.shape = None
        if "@" in name:                      # NAME@n,n : with a shape
            base, sh = name.split("@")
            self.shape = [int(x) for x in sh.split(",")]
        global BYTES
        BYTES = base.endswith("!")           # NAME! : blobs of any bytes
        base = base.rstrip("!")
        self.db = getattr(ts, base)
        self.norm = ts.NORMS[self.db]
        r = random.Random(base)
        vals = {}
        for _ in range(600):
            v = gen(self.norm, r)
            if self.shape and base.startswith("VECTOR_") and len(v) != self.shape[0]:
                continue
            vals.setdefault(canon(v, self.norm), v)
            if len(vals) == 12:
                break
        BYTES = False
        simple = isinstance(self.norm, str)
        ks = sorted(vals) if simple else list(vals)
        if self.norm == "std::string":
            ks.sort(key=lambda s: s.encode())
        self.vals = [vals[k] for k in ks]
        self.canon = ks
        self.cmp = simple and self.norm != "cyclus::Blob"

    def find(self, v):
        try:
            c = canon(v, self.norm)
        except Exception:
            return -2
        return self.canon.index(c) if c in self.canon else -1

    @staticmethod
    def get(name):
        if name not in Ty.all:
            Ty.all[name] = Ty(name)
        return Ty.all[name]


# ---------------------------------------------------------------- one history
class World(object):
    def __init__(self, n):
        self.n, self.rec, self.sims, self.tabs, self.backs, self.kind, self.path = n, [], {}, {}, [], [], []

    def open(self, kind, path):
        return lib.SqliteBack(path) if kind == "sql" else lib.Hdf5Back(path)

    def attempt(self, f):
        try:
            f()
            return "ok"
        except RuntimeError:
            return "io"
        except Exception as e:
            return "py: %s" % type(e).__name__

    def do(self, k):
        c = k[0]
        if c == "sim":
            r = lib.Recorder(inject_sim_id=k[2] == "1")
            r.dump_count = int(k[1])
            self.rec.append(r)
            self.sims[r.sim_id] = len(self.rec)
            emit("sim", dump=int(k[1]), inj=k[2] == "1", got=r.dump_count, ginj=bool(r.inject_sim_id))
        elif c == "back":                    # back mem|sql|h5 [fallback]
            fb = int(k[2]) if len(k) > 2 else 0
            p = "py%d_%d.%s" % (self.n, len(self.backs) + 1, {"sql": "sqlite"}.get(k[1], k[1]))
            if os.path.exists(p):
                os.remove(p)
            b = memback.MemBack(fallback=self.backs[fb - 1] if fb else None) if k[1] == "mem" else self.open(k[1], p)
            self.backs.append(b)
            self.kind.append(k[1])
            self.path.append(p)
            emit("back", b=len(self.backs), kind=k[1], fb=fb)
        elif c == "reg":
            emit("reg", r=int(k[1]), b=int(k[2]))
            self.rec[int(k[1]) - 1].register_backend(self.backs[int(k[2]) - 1])
        elif c == "tab":                     # tab name type... ; a column may be given its own name as type:name
            ty = [Ty.get(x.split(":")[0]) for x in k[2:]]
            cols = [x.split(":")[1] if ":" in x else "col%d%s" % (i + 1, x.split("@")[0].rstrip("!").lower()) for i, x in enumerate(k[2:])]
            self.tabs[k[1]] = (cols, ty)
            emit("tab", tab=k[1], cols=cols)
        elif c == "rec":
            cols, ty = self.tabs[k[2]]
            v = [int(k[3 + i]) % len(t.vals) for i, t in enumerate(ty)]
            emit("rec", r=int(k[1]), tab=k[2], v=v)

            def f():
                d = self.rec[int(k[1]) - 1].new_datum(k[2])
                for cn, t, i in zip(cols, ty, v):
                    if t.shape is None:
                        d.add_val(cn, t.vals[i], type=t.db)
                    else:
                        d.add_val(cn, t.vals[i], shape=t.shape, type=t.db)
                d.record()
            emit("done", res=self.attempt(f))
        elif c in ("flush", "close"):
            emit(c, r=int(k[1]))
            emit("done", res=self.attempt(getattr(self.rec[int(k[1]) - 1], c)))
        elif c == "inject":
            emit(c, r=int(k[1]), inj=k[2] == "1")
            self.rec[int(k[1]) - 1].inject_sim_id = k[2] == "1"
            emit("done", res="ok")
        elif c == "dump":
            r = self.rec[int(k[1]) - 1]
            r.dump_count = int(k[2])
            emit(c, r=int(k[1]), dump=int(k[2]), got=r.dump_count)
        elif c == "keep":                    # keep b all|none|names...
            b = self.backs[int(k[1]) - 1]
            names = k[2:]
            if names == ["all"]:
                b.registry = True
            elif names in (["none"], ["false"]):
                b.registry = None if names == ["none"] else False
            else:
                b.registry = names if len(names) % 2 else frozenset(names)
            a = names == ["all"]
            s = [] if names in (["all"], ["none"], ["false"]) else names
            emit("keep", b=int(k[1]), all=a, set=sorted(set(s)), gall=bool(b.store_all_tables), gset=sorted(b.registry))
        elif c == "reopen":
            i = int(k[1]) - 1
            self.backs[i].close()
            self.backs[i] = self.open(self.kind[i], self.path[i])
            emit(c, b=i + 1)
        elif c == "q":                       # q b table [col op v]...
            b = self.backs[int(k[1]) - 1]
            cols, ty = self.tabs.get(k[2], ([], []))
            cs, cj = [], []
            for i in range(3, len(k) - 2, 3):
                col, op, v = int(k[i]), k[i + 1], int(k[i + 2])
                if col == 0:
                    cs.append(("SimId", op, self.rec[v - 1].sim_id))
                    cj.append(dict(c=0, o=op, v=v))
                elif col == 99:              # a column that the table does not have
                    cs.append(("NoSuchColumn", op, v))
                    cj.append(dict(c=-1, o=op, v=v))
                elif cols:
                    col = 1 + (col - 1) % len(cols)
                    t = ty[col - 1]
                    if not t.cmp:
                        continue
                    if t.norm == "boost::uuids::uuid" and op not in ("==", "!="):
                        op = "=="
                    v %= len(t.vals)
                    cs.append((cols[col - 1], op, t.vals[v]))
                    cj.append(dict(c=col, o=op, v=v))
            got = []
            res = self.attempt(lambda: got.append(b.query(k[2], cs) if cs or len(k) % 2 else b.query(k[2])))
            df = got[0] if got else None
            fields, rows = [], []
            if res == "ok" and df is None:
                res = "none"
            elif res == "ok":
                fields = [str(x) for x in df.columns]
                i0 = 1 if fields[:1] == ["SimId"] else 0
                cells = [list(df[f]) for f in df.columns]
                for j in range(len(df)):
                    sim = self.sims.get(cells[0][j], -1) if i0 else 0
                    rows.append(dict(sim=sim, v=[ty[i - i0].find(cells[i][j]) if i - i0 < len(ty) else -3 for i in range(i0, len(fields))]))
            emit("q", b=int(k[1]), tab=k[2], conds=cj, res=res, fields=fields, types=True, rows=rows)
        elif c == "tabs":                    # the tables there are
            emit("tabs", b=int(k[1]), tabs=sorted(self.backs[int(k[1]) - 1].tables))
        elif c == "schema":
            try:
                s = [x.col for x in self.backs[int(k[1]) - 1].schema(k[2])]
            except RuntimeError:
                s = []
            emit("schema", b=int(k[1]), tab=k[2], cols=[x.decode() if isinstance(x, bytes) else x for x in s])
        else:
            print("@ERR " + " ".join(k))
            sys.exit(99)

    def end(self):
        for r in self.rec:
            r.close()
        self.rec, self.backs = [], []
        for p in self.path:
            if os.path.exists(p):
                os.remove(p)


def main():
    if len(sys.argv) > 1:
        print(json.dumps([n for d, n in sorted(ts.NAMES.items()) if "cyclus::Material" not in str(ts.NORMS[d]) and "cyclus::Product" not in str(ts.NORMS[d])]))
        return
    w = None
    n = 0
    for line in sys.stdin:
        k = line.split()
        if not k:
            continue
        if k[0] == "H":
            n += 1
            w = World(n)
            print("@H " + k[1], flush=True)
        elif k[0] == "END":
            emit("end")
            print("\n".join(out), flush=True)
            out.clear()
            w.end()
            w = None
            print("@END", flush=True)
        elif k[0] == "QUIT":
            print("@QUIT", flush=True)
            break
        else:
            w.do(k)
            print("\n".join(out), flush=True)
            out.clear()


main()
