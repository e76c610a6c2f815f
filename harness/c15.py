"""C15: logical observables report the logical value prepared and evolved."""
import random

import enc, expcheck, progs, zoo
from vlib import call, main, pmap, validate


def obs_case(i, e, layouts, bases, inds):
    last = {}
    for k, (q, _, _) in enumerate(e.meas):
        last[q] = k
    obs = [dict(i=n, q=[e.meas[m][0] for m in sorted(enc.odd(o))], last=all(last[e.meas[m][0]] == m for m in enc.odd(o)))
           for n, o in sorted(e.obs.items())]
    want = []
    for l, r in zip(layouts, bases):
        for lab in l.get_logical_qubits():
            want.append([inds[q] for q in (l.log_x if r else l.log_z)[lab]])
    return dict(id=i, kind="obs", obs=obs, want=want)


def one(arg):
    i, cfg = arg

    def f():
        b = zoo.build(cfg)
        e = enc.Enc(b.circuit)
        oc = obs_case(i, e, b.layouts, [cfg.get("rot", False)] * len(b.layouts), b.inds)
        n = len(b.layouts)
        instr, extra = e.instr, {k: [] for k in e.obs}
        if cfg["v"] == "rot_xzzx_google":
            # up to a fixed flip: run next to the same experiment on the zero bitstring
            e0 = enc.Enc(zoo.build(cfg, init=0).circuit)
            off = max(b.inds.values()) + 1
            instr = instr + expcheck.shift(e0.instr, off, e.num_meas)
            extra = {k: [m + e.num_meas for m in o] for k, o in e0.obs.items()}
        prods = [e.prod(m=enc.odd(e.obs[k] + extra.get(k, [])), kind="log", v=k + 1) for k in range(n) if k in e.obs]
        return oc, dict(id=i, instr=instr, prods=prods, prog=expcheck.prog_of(cfg, b), gens=[])

    return call(f, 120)


def merged(arg):
    """merge_log_meas on several codes, any order and bases, after individual preparations."""
    i, cfg = arg

    def f():
        from surface_sim.util import merge_log_meas

        p = progs.Codes(cfg)
        p.start()
        rnd = random.Random(cfg["seed"])
        e = enc.Enc()
        for k, r in enumerate(cfg["bases"]):
            e.feed(p.init_code(k, r, p.bitstring(k, r, rnd.randint(0, 1), rnd)))
        for _ in range(cfg["rounds"]):
            e.feed(p.round(range(len(p.layouts))))
        order = cfg["order"]
        ls = [p.layouts[k] for k in order]
        bases = [cfg["bases"][k] == "X" for k in order]
        e.feed(p.measall(order, [cfg["bases"][k] for k in order]))
        oc = obs_case(i, e, ls, bases, p.inds)
        prods, instr = [], e.instr
        progv = dict(basis="Z", init=[p.inds[q] for q, v in p.init.items() if v], gates=[],
                     sups=[[p.inds[q] for q in (l.log_x if r else l.log_z)[lab]]
                           for l, r in zip(ls, bases) for lab in l.get_logical_qubits()])
        for k in range(len(progv["sups"])):
            if k in e.obs:
                prods.append(e.prod(m=enc.odd(e.obs[k]), kind="log", v=k + 1))
        return oc, dict(id=i, instr=instr, prods=prods, prog=progv, gens=[])

    return call(f, 120)


def body(c):
    rng = random.Random(c.seed + 15)
    dists = [(2, 2), (2, 3), (3, 2), (3, 3), (4, 3), (3, 4), (5, 3), (3, 5)] + ([(5, 5), (4, 6)] if c.thorough else [])
    n = 900 if c.thorough else 150
    inits = [1, ["seed", 1]]
    models = ("noiseless",) * 4 + ("circuit", "phenom")
    jobs = [(one, x) for x in zoo.memory_configs(rng, n, dists, max_rounds=4, gauge=(False, True), models=models)]
    jobs += [(one, x) for x in zoo.gate_configs(rng, n, small=5 if c.thorough else 4, max_ng=8, max_rounds=2,
                                                gauge=(False, True), frames=zoo.FRAMES, models=models)]
    jobs += [(one, x) for x in zoo.extreme_configs(rng)]
    for _ in range(6):  # many codes read out together
        cfg = progs.merged_cfg(rng)
        m = rng.choice([6, 11, 13])
        jobs.append((merged, dict(cfg, sizes=[(2, 2)] * m, bases=[rng.choice("XZ") for _ in range(m)], order=rng.sample(range(m), m))))
    for v in zoo.MEM:  # the bitstrings of a small code, exhaustively on the logical support
        for rot in (False, True):
            for bit in range(4):
                jobs.append((one, dict(v=v, dz=2, dx=3, rounds=1, rot=rot, init=["seed", 7 * bit + rot], reset=True)))
    for _ in range(n // 2):
        jobs.append((merged, progs.merged_cfg(rng, pairs=.4)))
    res = pmap(_run, [(f.__name__, (k, cfg)) for k, (f, cfg) in enumerate(jobs)])
    oc, cc = [], []
    for (f, cfg), (r, err) in zip(jobs, res):
        if err:
            c.violation("raised", dict(config=cfg, error=err))
        else:
            oc.append(r[0])
            cc.append(r[1])
    bad, st = validate("Annotations", oc)
    c.stats(st)
    for i, cl in bad.items():
        c.violation(cl[0], dict(config=jobs[i][1], case=next(x for x in oc if x["id"] == i)))
    for k in range(0, len(cc), 500):
        bad, st = validate("CircuitTrace", cc[k:k + 500], timeout=3000)
        c.stats(st)
        for i, cl in bad.items():
            c.violation(cl[1], dict(config=jobs[i][1], observable=cl[0] - 1))
    c.count("experiments", len(jobs))
    c.count("observables_judged", sum(len(x["prods"]) for x in cc))
    for _, cfg in jobs[:2] + jobs[-1:]:
        c.sample(cfg)


def _run(a):
    return {"one": one, "merged": merged}[a[0]](a[1])


if __name__ == "__main__":
    import sys
    sys.exit(main("C15", body))
