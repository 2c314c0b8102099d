import exchange_check


def run(ck):
    exchange_check.run(ck, [("man", "greedy", 1200), ("mgr", "greedy", 200)], nspec=ck.n(1500, 40000))
