import resource_check


def run(ck):
    resource_check.run(ck, [("buf", 900), ("mix", 300)], ('','bulk','keep',))
