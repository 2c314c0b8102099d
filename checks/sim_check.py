import sim_gen
import vbuild


def run(ck, mix, model=True):
    ck.build("sim")
    args = [vbuild.REPO]
    if model:
        bs = ck.behaviours("MCSim", "MCSimAll%s.cfg" % ("3" if ck.thorough else ""), timeout=800)
        k = 600 * (15 if ck.thorough else 1)
        if len(bs) > k:
            bs = ck.rng.sample(bs, k)
        ck.validate("SimTrace", ck.drive("sim", [sim_gen.scheduled(ck.rng, b) for b in bs], args=args), name="SpecSchedules")
    scripts = []
    for focus, n in mix:
        scripts += [sim_gen.gen(ck.rng, focus) for _ in range(n * (8 if ck.thorough else 1))]
    hs = ck.drive("sim", scripts, args=args)
    ck.count_ops(hs)
    ck.validate("SimTrace", hs, name="RandomSimulations")
