import os, json, subprocess, shutil, sys
from concurrent.futures import ThreadPoolExecutor
import arch_gen, vbuild, vf


def flunk(ck, what, path):
    """A valid archetype that cannot be preprocessed or compiled."""
    rp = os.path.join(vbuild.VERIF, "replays", "P21-archetype-%s.h" % ck.tier)
    os.makedirs(os.path.dirname(rp), exist_ok=True)
    shutil.copy(path, rp)
    ck.log("REJECTED archetypes: " + what)
    raise vf.Violation(rp, what)


def compiled(ck, classes, ntu):
    """The classes, preprocessed by the project's preprocessor, compiled and linked with the driver."""
    d = os.path.join(ck.work, "gen")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    ex = ["-I" + os.path.join(vbuild.VERIF, "harness"), "-I" + d]
    units = [classes[i::ntu] for i in range(ntu)]

    def unit(i):
        h, o, cc = (os.path.join(d, "gen%d.%s" % (i, e)) for e in ("in.h", "h", "cc"))
        with open(h, "w") as f:
            f.write("#ifndef GEN%d_H_\n#define GEN%d_H_\n#include <list>\n#include \"cyclus.h\"\n" % (i, i) + "\n".join(c.header() for c in units[i]) + "#endif\n")
        e = vbuild.cycpp(h, o)
        if e:
            return ("the preprocessor failed: " + e, h)
        regs = [c.registry() for c in units[i]]
        with open(cc, "w") as f:
            f.write('#include "gen%d.h"\n#include "arch.h"\n' % i + "namespace arch {\n" + "".join(a for a, _ in regs) + "}\n" + "".join(b for _, b in regs))
        try:
            return vbuild.compile_one(cc, ex, "gen-")
        except vbuild.BuildError as e:
            return ("the generated code does not compile: " + str(e)[-1500:], h)
    with ThreadPoolExecutor(vbuild.NPROC) as pool:
        drv = pool.submit(vbuild.compile_one, os.path.join(vbuild.VERIF, "harness", "arch.cc"), ex, "drv-")
        objs = list(pool.map(unit, range(ntu)))
        drv = drv.result()
    for o in objs:
        if not isinstance(o, str):
            flunk(ck, *o)
    ck.exe["arch"] = vbuild.link(os.path.join(vbuild.BUILD, "drv-arch"), [drv] + objs,
                                 vbuild.OPT + ["-rdynamic", "-L" + vbuild.BUILD, "-Wl,-rpath," + vbuild.BUILD, "-lcyclus", "-Wl,--allow-shlib-undefined"] + vbuild.LIBS)
    for o in objs:
        os.remove(o)
    shutil.rmtree(d, ignore_errors=True)


def run(ck):
    ck.build()
    rng = ck.rng
    decls = ck.behaviours("MCDecl", "MCDecl.cfg")
    for round_ in range(4 if ck.thorough else 1):
        ds = list(decls)
        rng.shuffle(ds)
        sql = [d for d in ds if arch_gen.short(d["t"]) in arch_gen.SQLOK]
        h5 = [d for d in ds if arch_gen.short(d["t"]) not in arch_gen.SQLOK]
        cs, k = [], 0
        while sql or h5:
            n = rng.choice([1, 6, 10, 14, 18])
            take = []
            for _ in range(n):
                src = h5 if (h5 and (k % 2 == 0 or not sql) and rng.random() < .7) or not sql else sql
                if k % 2 and sql:
                    src = sql
                if src:
                    take.append(src.pop())
            cs.append(arch_gen.Cls(rng, "A%d" % k, take))
            k += 1
        # nothing to configure: no variables at all, or none a user may give
        cs.append(arch_gen.Cls(rng, "A%d" % k, []))
        cs.append(arch_gen.Cls(rng, "A%d" % (k + 1), [d for d in decls if d["mode"] == "int" and arch_gen.plain(d["t"])][:3]))
        compiled(ck, cs, 8)
        ck.log("%d archetypes with %d variables" % (len(cs), sum(len(c.vars) for c in cs)))
        hs = ck.drive("arch", [arch_gen.documents(rng, c, 12) for c in cs for _ in range(2)])
        ck.count_ops(hs)
        ck.validate("ArchetypeTrace", hs, name="Documents%d" % round_)
        bs = ck.behaviours("MCArch", "MCArch6.cfg" if ck.thorough else "MCArch5.cfg")
        bs = rng.sample(bs, min(len(bs), 2000 if ck.thorough else 400))
        hs = ck.drive("arch", [arch_gen.scheduled(rng, rng.choice(cs), b) for b in bs] + [arch_gen.mixed(rng, rng.choice(cs)) for _ in range(1500 if ck.thorough else 300)])
        ck.count_ops(hs)
        ck.validate("ArchetypeTrace", hs, name="Lifecycle%d" % round_)
    ck.assumptions += ["preprocessed with the system's cpp and compiled by this check", "empty texts and empty containers are not part of the documents"]
