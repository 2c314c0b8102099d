import exchange_check


def run(ck):
    exchange_check.run(ck, [("mgr", "greedy", 900), ("mgr", "cbc", 150), ("man", "greedy", 300)])
