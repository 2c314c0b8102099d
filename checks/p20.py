import random_gen


def run(ck):
    ck.build("random")
    bs = ck.behaviours("MCRandom", "MCRandom5.cfg" if ck.thorough else "MCRandom4.cfg")
    ck.validate("RandomTrace", ck.drive("random", [random_gen.scheduled(ck.rng, b) for b in bs]), name="SpecSchedules")
    hs = ck.drive("random", [random_gen.gen(ck.rng) for _ in range(40000 if ck.thorough else 3000)])
    ck.count_ops(hs)
    ck.validate("RandomTrace", hs, name="RandomHistories")
    ck.assumptions += ["means are compared within six standard deviations of the declared one", "the negative binomial's mean is not compared"]
