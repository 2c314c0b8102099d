import store_gen


def run(ck, mix, model=True, probes=()):
    ck.build("backend")
    if model:
        bs = ck.behaviours("MCStore", "MCStore%s.cfg" % ("5" if ck.thorough else ""), timeout=800)
        k = 1500 * (20 if ck.thorough else 1)
        if len(bs) > k:
            bs = ck.rng.sample(bs, k)
        ck.validate("StoreTrace", ck.drive("backend", bs), name="SpecBehaviours")
    scripts = []
    for focus, n in mix:
        scripts += [store_gen.gen(ck.rng, focus) for _ in range(n * (8 if ck.thorough else 1))]
    hs = ck.drive("backend", scripts)
    ck.count_ops(hs)
    ck.validate("StoreTrace", hs, name="RandomStores")
    for script, clause, text in probes:
        ck.validate("StoreTrace", ck.drive("backend", [script]), name="Probe", known=lambda h, err: text if err.startswith(clause) else None)
