"""C03: noiseless experiments have deterministic detectors and observables."""
import random

import enc, expcheck, zoo
from vlib import call, main, pmap, validate


def one(arg):
    i, cfg = arg

    def f():
        b = zoo.build(cfg)
        e = enc.Enc(b.circuit)
        prods = expcheck.determinism_prods(cfg, b, e)
        prods += [e.prod(m=enc.odd(o), kind="det") for o in e.obs.values()]
        return dict(id=i, instr=e.instr, prods=prods, prog=expcheck.prog_of(cfg, b), gens=[])

    return call(f, 120)


def configs(c):
    rng = random.Random(c.seed)
    out = []
    # every variant and basis and reset mode on the d=3 square and on rectangles, all frames in turn
    k = 0
    for v in zoo.MEM:
        for rot in (False, True):
            for reset in ((True,) if "google" in v else (True, False)):
                for dz, dx, r in ((3, 3, 3), (2, 3, 2), (4, 3, 2), (3, 5, 1)):
                    k += 1
                    out.append(dict(v=v, dz=dz, dx=dx, rounds=r, rot=rot, reset=reset, frame=zoo.FRAMES[k % 3],
                                    gauge=False, init=["seed", k], lay=zoo.LAYS[k % len(zoo.LAYS)]))
    for v, g in zoo.GATES:
        for rot in (False, True):
            for reset in (True, False):
                for frame in ("post-gate", "pre-gate"):
                    d = 3
                    dz = 4 if (g == "s" and v != "unrot_css") else 3
                    k += 1
                    out.append(dict(v=v, gate=g, dz=dz, dx=d, ng=2 + (g == "cnot"), rounds=1 + k % 2, rot=rot, reset=reset,
                                    frame=frame, gauge=False, orient=("alternating", "constant")[k % 2], corner=k % 4,
                                    init=["seed", k], lay=zoo.LAYS[k % len(zoo.LAYS)]))
    big = [(2, 2), (2, 3), (3, 2), (3, 3), (3, 4), (4, 3), (5, 3), (2, 5), (4, 4)] + ([(5, 5), (3, 7), (6, 5)] if c.thorough else [(5, 5)])
    models = ("noiseless",) * 3 + ("circuit", "phenom", "incoming", "biased")
    n = 1500 if c.thorough else 200
    out += zoo.memory_configs(rng, n, big, max_rounds=6 if c.thorough else 5, gauge=(False, False, True), models=models)
    out += zoo.gate_configs(rng, n, small=5 if c.thorough else 4, max_ng=7 if c.thorough else 6, max_rounds=4 if c.thorough else 3,
                            gauge=(False, False, True), models=models)
    for _ in range(4 if c.thorough else 1):
        out += zoo.extreme_configs(rng)
    return out


def body(c):
    cfgs = configs(c)
    res = pmap(one, list(enumerate(cfgs)))
    cases = []
    for cfg, (case, err) in zip(cfgs, res):
        if err:
            c.violation("raised", dict(config=cfg, error=err))
        else:
            cases.append(case)
    for k in range(0, len(cases), 400):
        bad, st = validate("CircuitTrace", cases[k:k + 400], timeout=3000 if c.thorough else 800)
        c.stats(st)
        for i, (prod, clause, n) in bad.items():
            case = next(x for x in cases if x["id"] == i)
            c.violation(clause, dict(config=cfgs[i], product=prod, of=len(case["prods"]), failing=n,
                                     outcomes=case["prods"][prod - 1]["m"]))
    c.count("detectors_and_observables_judged", sum(len(x["prods"]) for x in cases))
    c.count("experiments", len(cfgs))
    for cfg in cfgs[:2] + cfgs[-2:]:
        c.sample(cfg)
    c.assumptions += ["stim circuit instructions mean what specs/Pauli.tla says",
                      "distances and rounds bounded as in the configurations"]


if __name__ == "__main__":
    import sys
    sys.exit(main("C03", body))
