import json, os, re, subprocess
import pystore_gen as g, vbuild

# What the databases can hold (the Python interface and the backend in memory take every type).
H5_NOT = re.compile(r"^(VL_)?(VECTOR|SET)_BOOL$")


def run(ck):
    ck.build()
    pkg, py = vbuild.python_package()
    ck.exe["pystore"] = py
    args, env = [os.path.join(vbuild.VERIF, "harness", "pystore.py")], {"VH_PKG": pkg}
    lines = subprocess.check_output([py] + args + ["x"], env=dict(os.environ, **env), text=True).split("\n")
    types = json.loads([l for l in lines if l.startswith("[")][-1])
    sql = json.load(open(os.path.join(vbuild.VERIF, "checks", "sqltypes.json")))
    h5 = [t for t in types if not H5_NOT.match(t)]

    def drive(scripts):
        return ck.drive("pystore", scripts, args=args, env=env)
    bs = ck.behaviours("MCMem", "MCMem4.cfg" if ck.thorough else "MCMem.cfg")
    k = ck.n(1400, 6000)
    if len(bs) > k:
        bs = ck.rng.sample(bs, k)
    ck.validate("StoreTrace", drive(bs), name="SpecBehaviours")
    ts = []
    for t in types:
        ts.append(g.one_type(ck.rng, t, ["mem"] + (["sql"] if t in sql else []) + (["h5"] if t in h5 else [])))
        if "BLOB" in t:
            ts.append(g.one_type(ck.rng, t + "!", ["mem"] + (["sql"] if t in sql else [])))
    ck.validate("StoreTrace", drive(ts), name="EveryType")
    hs = drive([g.gen(ck.rng, types, sql, h5) for _ in range(ck.n(700, 9000))])
    ck.count_ops(hs)
    ck.validate("StoreTrace", hs, name="RandomStores")
    ck.assumptions += ["the Python modules are compiled without optimisation from the sources the project's generator and Cython give; the agents module is left out",
                       "a recorder is closed before its outputs go away",
                       "tables in one history carry the identity of the simulation or not, throughout",
                       "strings (and blobs in HDF5 files, a known finding of P15) hold no NUL bytes",
                       "conditions name columns the table has"]
