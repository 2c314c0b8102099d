import decay_gen as g


def run(ck):
    ck.build("decay")
    bs = ck.behaviours("MCDecay", "MCDecay6.cfg" if ck.thorough else "MCDecay5.cfg")
    n = ck.n(2500, 40000)
    if len(bs) > n:
        bs = ck.rng.sample(bs, n)
    ck.validate("DecayTrace", ck.drive("decay", [g.scheduled(ck.rng, b) for b in bs]), name="SpecSchedules")
    hs = ck.drive("decay", [g.gen(ck.rng) for _ in range(ck.n(2500, 40000))])
    ck.count_ops(hs)
    ck.validate("DecayTrace", hs, name="RandomHistories")
    ck.assumptions += ["the matrix-exponential library and the half-life data, neither of which is in the repository, are stand-ins in the driver with one parent, its daughter, a slow nuclide and stable ones",
                       "a decay time asked for is not before the current time", "which of two different decay times a merged material keeps is not compared (documented as undefined)"]
