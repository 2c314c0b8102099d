import exchange_gen


def run(ck):
    ck.build("exchange")
    scripts = []
    for solver, n in (("cbc", 900), ("clp", 300)):
        n = n * (10 if ck.thorough else 1)
        while n:
            s = exchange_gen.gen(ck.rng, "man", solver)
            # one exchange with a few pairs
            k = sum(x.startswith("bd ") for x in s)
            if 1 <= k <= 6:
                scripts.append(s)
                n -= 1
    hs = ck.drive("exchange", scripts)
    ck.count_ops(hs)
    ck.validate("ExchangeTrace", hs, name="Optimal", env={"OPT": "1"})
    ck.assumptions += [
        "exchanges with at most six request-bid pairs are compared with every other set of trades nearby; larger ones only with the greedy solution (P06)",
        "objectives are compared to half a percent",
        "the solver's time limit is never reached"]
