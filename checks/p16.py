import sim_check


def run(ck):
    sim_check.run(ck, [("load", 1200), ("restart", 50)], model=False)
    ck.assumptions += ["input files in XML, nested and flat form; archetypes compiled into the driver", "the agents' own input is read by their InfileToDb as cycpp would generate it"]
