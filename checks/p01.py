import kernel_check


def run(ck):
    kernel_check.run(ck, "phase", ck.n(1200, 12000))
