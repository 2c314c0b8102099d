import policy_check


def run(ck):
    policy_check.run(ck, "sell", 4000)
    ck.assumptions += ["the trades handed to the policy respect its offers and its offered total, as the market guarantees (P05, P06)"]
