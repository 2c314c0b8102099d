import resource_check


def run(ck):
    resource_check.run(ck, [("inv", 700), ("trk", 400), ("mix", 300)], ('',))
