import resource_gen

MODEL = {"": "", "bulk": "Bulk", "keep": "Keep"}


def run(ck, mix, models=("",), nspec=250):
    ck.build("resource")
    for m in models:
        bs = ck.behaviours("MCResource", "MCResource%s%s.cfg" % (MODEL[m], "4" if ck.thorough else ""), timeout=800)
        k = nspec * (16 if ck.thorough else 1)
        if len(bs) > k:
            bs = ck.rng.sample(bs, k)
        hs = ck.drive("resource", bs)
        ck.validate("ResourceTrace", hs, name="SpecBehaviours" + MODEL[m])
    scripts = []
    for focus, n in mix:
        scripts += [resource_gen.gen(ck.rng, focus) for _ in range(n * (12 if ck.thorough else 1))]
    hs = ck.drive("resource", scripts)
    ck.count_ops(hs)
    ck.validate("ResourceTrace", hs, name="RandomResources")
    ck.assumptions += ["quantities are exact to 1/1000 of a unit", "decay is off and no decay data are used",
                       "bulk product buffers and squashes hold one quality, tracked and untracked resources are not mixed"]
