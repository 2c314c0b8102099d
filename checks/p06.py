import exchange_check


def run(ck):
    exchange_check.run(ck, [("man", "cbc", 500), ("man", "clp", 300), ("man", "greedy", 400)])
