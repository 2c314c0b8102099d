import exchange_check


def run(ck):
    exchange_check.run(ck, [("man", "greedy", 900), ("mgr", "greedy", 400)])
