import resource_check


def run(ck):
    resource_check.run(ck, [("res", 900), ("mix", 300)], ('',))
