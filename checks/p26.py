import os
import flow_gen as g, vbuild


def run(ck):
    ck.build()
    d, objs = vbuild.bundled_agents()
    drv = vbuild.compile_one(os.path.join(vbuild.VERIF, "harness", "flow.cc"), ["-I" + os.path.join(vbuild.VERIF, "harness")], "drv-")
    ck.exe["flow"] = vbuild.link(os.path.join(vbuild.BUILD, "drv-flow"), [drv] + objs,
                                 vbuild.OPT + ["-rdynamic", "-L" + vbuild.BUILD, "-Wl,-rpath," + vbuild.BUILD, "-lcyclus", "-Wl,--allow-shlib-undefined"] + vbuild.LIBS)
    args = [vbuild.REPO]
    bs = ck.behaviours("MCFlow", "MCFlow4.cfg" if ck.thorough else "MCFlow.cfg")
    ck.validate("FlowTrace", ck.drive("flow", [g.scheduled(ck.rng, b) for b in bs], args=args), name="SpecConfigurations")
    hs = ck.drive("flow", [g.gen(ck.rng) for _ in range(ck.n(1500, 20000))], args=args)
    ck.count_ops(hs)
    ck.validate("FlowTrace", hs, name="WholeSimulations")
    ck.assumptions += ["a sink or k-facility is offered materials or products, not both", "the greedy solver without commodity priorities",
                       "the archetypes are preprocessed by cycpp and compiled into the driver instead of loaded as a module"]
