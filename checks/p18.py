import policy_check


def run(ck):
    policy_check.run(ck, "buy", 2500)
    ck.assumptions += ["each policy's requests are met before the next policy on the same stock asks", "active and dormant lengths and request sizes are scripted distributions"]
