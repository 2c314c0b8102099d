import policy_gen


def run(ck, focus, n):
    ck.build("policy")
    if focus == "buy":
        ck.model_check("MCPolicy", "MCPolicy.cfg")
        bs = ck.behaviours("MCPolicy", "MCPolicyAll.cfg")
        k = 1500 * (10 if ck.thorough else 1)
        if len(bs) > k:
            bs = ck.rng.sample(bs, k)
        bs += ck.behaviours("MCPolicy", "MCPolicySim.cfg", simulate=4000 if ck.thorough else 500, depth=40)
        ck.validate("PolicyTrace", ck.drive("policy", [policy_gen.scheduled(ck.rng, b) for b in bs]), name="SpecSchedules")
    hs = ck.drive("policy", [policy_gen.gen(ck.rng, focus) for _ in range(n * (12 if ck.thorough else 1))])
    ck.count_ops(hs)
    ck.validate("PolicyTrace", hs, name="RandomHistories")
