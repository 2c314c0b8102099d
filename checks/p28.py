import content_gen as g


def run(ck):
    ck.build("content")
    bs = ck.behaviours("MCContent", "MCContent4.cfg" if ck.thorough else "MCContent3.cfg")
    n = ck.n(2000, 30000)
    if len(bs) > n:
        bs = ck.rng.sample(bs, n)
    ck.validate("ContentTrace", ck.drive("content", [g.scheduled(ck.rng, b) for b in bs]), name="SpecSchedules")
    hs = ck.drive("content", [g.gen(ck.rng) for _ in range(ck.n(3000, 40000))])
    ck.count_ops(hs)
    ck.validate("ContentTrace", hs, name="RandomHistories")
    ck.assumptions += ["five nuclides stand for all; atomic masses are known to the specification to one part in a thousand",
                       "fractions are compared to about 1/1000, masses and quantities to 1/100 g in up to 200 g"]
