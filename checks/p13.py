import resource_check


def run(ck):
    resource_check.run(ck, [("pkg", 900), ("mix", 300)], ('keep',))
