import kernel_gen


def to_script(b):
    L = ["sim %d 0" % b["dur"], "proto I I -1", "proto G F -1", "proto F F %d" % b["life"],
         "init I 0", "init F 1"]
    for a in b["acts"]:
        L.append("act %d %s %d %s" % (a[0], a[1], a[2], " ".join(str(x) for x in a[3:])))
    return L + ["run"]


def run(ck, emph, nrand, share=1.0):
    ck.build("kernel")
    ck.model_check("MCKernel", "MCKernel3.cfg" if ck.thorough else "MCKernel.cfg")
    ck.model_check("MCKernel", "MCKernelLive.cfg")
    bs = ck.behaviours("MCKernel", "MCKernelAll.cfg")
    if not ck.thorough:
        bs = ck.rng.sample(bs, 2500)
    bs += ck.behaviours("MCKernel", "MCKernelSim.cfg", simulate=ck.n(400, 4000), depth=300)
    hs = ck.drive("kernel", [to_script(b) for b in bs])
    ck.validate("KernelTrace", hs, name="SpecBehaviours")
    scripts = [kernel_gen.gen(ck.rng, emph if i % 2 else "mix") for i in range(nrand)]
    hs = ck.drive("kernel", scripts)
    ck.count_ops(hs)
    ck.validate("KernelTrace", hs, name="RandomScripts")
    ck.assumptions += [
        "agents do not build, register or unregister listeners from inside tick/tock loops",
        "serial build (no OpenMP), C++ agents"]
