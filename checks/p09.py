import resource_check


def run(ck):
    resource_check.run(ck, [("prov", 900), ("mix", 300)], ('',))
