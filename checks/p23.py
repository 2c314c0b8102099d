import build_gen


def run(ck):
    ck.build("build")
    bs = ck.behaviours("MCBuild", "MCBuild4.cfg" if ck.thorough else "MCBuild3.cfg")
    n = ck.n(1500, 12000)
    if len(bs) > n:
        bs = ck.rng.sample(bs, n)
    ck.validate("BuildTrace", ck.drive("build", [build_gen.scheduled(b) for b in bs]), name="SpecSchedules")
    hs = ck.drive("build", [build_gen.gen(ck.rng) for _ in range(ck.n(2500, 30000))])
    ck.count_ops(hs)
    ck.validate("BuildTrace", hs, name="RandomHistories")
    ck.validate("BuildTrace", ck.drive("build", [build_gen.multiples(c) for c in range(1, ck.n(64, 400))]), name="Multiples")
    ck.assumptions += ["at most five producers compete for one commodity", "a producer belongs to one builder",
                       "default building costs (no cost given) are not compared"]
