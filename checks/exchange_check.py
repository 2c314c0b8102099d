import exchange_gen


def to_script(b):
    """A behaviour of MCExchange (parameters of one exchange) as a driver script."""
    L = ["sim 1 man greedy 1 end", "agent F 0", "agent F 0", "agent F 0"]
    rq = ["rq %d c0 %d 1 %d 4" % (i + 1, b["rq"][i], b["rx"][i]) for i in range(2)]
    if b["same"]:
        L += ["rp 101 0 1 M"] + rq
    else:
        L += ["rp 101 0 1 M", rq[0], "rp 102 0 1 M", rq[1]]
    L += ["bp 103 0 2 M",
          "bd 11 1 %d %d %d 4 0" % (b["bq"][0], b["bx"], b["bp"][0]),
          "bd 13 %d %d 0 %d 4 0" % (b["b3"], b["bq"][2], b["bp"][2]),
          "bc %d 1" % b["cap"][0],
          "bp 104 0 3 M",
          "bd 12 2 %d 0 %d 4 0" % (b["bq"][1], b["bp"][1]),
          "bc %d 1" % b["cap"][1], "run"]
    return L


def run(ck, mix, nspec=0):
    ck.build("exchange")
    if nspec:
        ck.model_check("MCExchange", "MCExchangeLive.cfg")
        bs = ck.behaviours("MCExchange", "MCExchangeAll.cfg" if ck.thorough else "MCExchange.cfg")
        if len(bs) > nspec:
            bs = ck.rng.sample(bs, nspec)
        hs = ck.drive("exchange", [to_script(b) for b in bs])
        ck.validate("ExchangeTrace", hs, name="SpecBehaviours")
    scripts = []
    for mode, solver, n in mix:
        n = n * (12 if ck.thorough else 1)
        scripts += [exchange_gen.gen(ck.rng, mode, solver) for _ in range(n)]
    hs = ck.drive("exchange", scripts)
    ck.count_ops(hs)
    ck.validate("ExchangeTrace", hs, name="RandomExchanges")
    ck.assumptions += [
        "quantities are exact to 1/1000; ties in preference may be served in any order",
        "traders answer their callbacks without touching other traders",
        "the fallback solver time limit is never reached"]
