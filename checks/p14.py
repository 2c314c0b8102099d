import store_check


def run(ck):
    store_check.run(ck, [("rec", 1500)])
    ck.assumptions += ["each row is completed before the next one is begun", "a backend that is registered late receives the rows still waiting"]
