"""C09: workers of one run execute concurrently. Specifications: spec/ParRun.tla, spec/NativeRun.tla and their designs."""

import native
import parrun
import vlib


def together(rng):
    """Everybody waits for everybody; sometimes more output than a pipe holds is written before or after."""
    k = rng.choice([2, 3, 4, 8, 16])
    if rng.random() < 0.5:
        sc = parrun.many(rng)
        sc["ids"] = sc["ids"][:k]
        sc["n"] = rng.choice([k, k, max(1, k // 2)])
    else:
        sc = native.rand(rng, True)
        while len(sc["files"]) < 2:
            sc = native.rand(rng, True)
        sc["n"] = rng.choice([2, 3, 4, 8, 16])
    sc["barrier"], sc["early"] = True, rng.random() < 0.5
    loud = {"lines": 400, "width": 1000, "nl": True, "bin": False}
    for x in sc.get("files") or sc["ids"]:
        if rng.random() < 0.3:
            x["plan"]["out" if rng.random() < 0.5 else "err"] = loud
    return sc


def check(run, replay=None):
    bindir = vlib.build_rust()
    if replay:
        scenarios = [replay]
    else:
        par = vlib.printed(run.design("ParRunMC"), "SCN")
        run.design("ParRunMC", "ParRunMCB.cfg")
        run.design("NativeRunMC", "NativeRunMCB.cfg")
        nat = vlib.printed(run.design("NativeRunMC", "NativeRunMC2.cfg"), "SCN")
        a, b, c = run.pick((60, 60, 80), (500, 288, 1200))
        scenarios = [parrun.from_design(x, run.rng) for x in run.rng.sample(par, a)]
        scenarios += [native.from_design(x, run.rng) for x in run.rng.sample(nat, min(b, len(nat)))]
        scenarios += [together(run.rng) for _ in range(c)] + [parrun.rand(run.rng, True) for _ in range(c)] + [native.rand(run.rng, True) for _ in range(c)]
        run.notes["scenarios"] = {"from_design_parallel": a, "from_design_native": b, "barriers": c, "random": 2 * c}
    par = [s for s in scenarios if "mode" in s and "kind" in s]
    nat = [s for s in scenarios if "kind" not in s]
    run.validate("ParRunTrace", parrun.run_pairs(bindir, par))
    run.validate("NativeRunTrace", native.run_pairs(bindir, nat))
    run.assumptions += ["workers are stand-ins that wait for the start or the end of others, at most 15 seconds, and log it when they waited in vain"]
