import sim_check


def run(ck):
    sim_check.run(ck, [("restart", 700)])
    ck.assumptions += ["agents restore their own state as cycpp-generated agents do", "one supplier and one requester per step (the order among several is not specified)",
                       "an agent with builds pending is not decommissioned", "random-number streams are not resumed"]
