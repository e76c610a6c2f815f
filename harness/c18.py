"""C18: any valid program of building blocks yields meaningful detectors."""
import random
from concurrent.futures import ThreadPoolExecutor

import progs
from vlib import call, main, pmap, run_tlc, validate


def one(arg):
    i, cfg, hist = arg

    def f():
        c, e, steps = progs.replay(cfg, hist)
        prods, what = progs.products(cfg, c, e, steps)
        prog = dict(basis="Z", sups=[], init=[], gates=[])
        return dict(id=i, instr=e.instr, prods=prods, prog=prog, gens=[]), what

    return call(f, 120)


def body(c):
    rng = random.Random(c.seed + 18)
    num = 500 if c.thorough else 60
    jobs = []
    with ThreadPoolExecutor(4) as ex:
        futs = {}
        for k, (w, s) in enumerate(progs.SETS.items()):
            n = rng.choice([5, 6])
            futs[w, 3] = ex.submit(progs.behaviours, num, s["gates"], 3, 20 if c.thorough else 12, 6, 12, c.seed * 10 + k)
            # long programs on many codes
            futs[w, n] = ex.submit(progs.behaviours, 60 if c.thorough else 5, s["gates"], n, 60, 40, 30, c.seed * 10 + k + 5)
        # the machine itself: TLC checks that what it promises is consistent
        mc = ex.submit(run_tlc, "Program", "ProgramCheckDeep.cfg" if c.thorough else "ProgramCheck.cfg", None, 4, 1500)
        for (w, n), f in futs.items():
            for h in f.result():
                jobs.append((progs.prog_cfg(rng, w, n), h))
    jobs.sort(key=lambda j: -len(j[1]))
    r = mc.result()
    c.stats(dict(states=r.distinct, transitions=r.generated, traces=0))
    c.count("program_machine_states", r.distinct)
    res = pmap(one, [(i, cfg, h) for i, (cfg, h) in enumerate(jobs)])
    cases, what = [], {}
    for i, ((cfg, h), (x, err)) in enumerate(zip(jobs, res)):
        if err:
            c.violation("raised", dict(config=cfg, program=h, error=err))
        else:
            cases.append(x[0])
            what[i] = x[1]
    for k in range(0, len(cases), 400):
        bad, st = validate("CircuitTrace", cases[k:k + 400], timeout=3000)
        c.stats(st)
        for i, (prod, clause, n) in bad.items():
            c.violation(clause, dict(config=jobs[i][0], program=jobs[i][1], at=what[i][prod - 1], failing=n))
    c.count("programs", len(jobs))
    c.count("annotations_judged", sum(len(x["prods"]) for x in cases))
    c.count("program_steps", sum(len(h) for _, h in jobs))
    for cfg, h in jobs[:3]:
        c.sample([cfg, [s["op"] for s in h]])
    c.assumptions += ["programs up to the bounded length on at most 6 codes of small distance",
                      "a code is read out only when no gate mixing it with a remaining code is pending"]


if __name__ == "__main__":
    import sys
    sys.exit(main("C18", body))
