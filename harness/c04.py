"""C04: a QEC round measures exactly the code stabilizers and preserves the code."""
import random

import stim

import enc, progs, zoo
from expcheck import Ops, xor_ops
from vlib import call, main, pmap, validate

PROG = dict(basis="Z", sups=[], init=[], gates=[])


def once(e, m0, m1, ancs, inds):
    """Outcome of each ancilla in the round; every ancilla is measured once, nothing else is."""
    out = {}
    names = {inds[a]: a for a in ancs}
    for k in range(m0, m1):
        q = e.meas[k][0]
        if q not in names or names[q] in out:
            raise ValueError(f"qubit {q} is measured {'twice' if q in names else 'but is no ancilla'} in a QEC round")
        out[names[q]] = k
    if set(out) != set(ancs):
        raise ValueError("ancillas without outcome in a QEC round")
    return out


def plain(arg):
    """Rounds of one or several codes."""
    i, cfg = arg

    def f():
        google = cfg["v"] == "rot_xzzx_google"
        c = progs.Codes(cfg)
        c.start()
        if not cfg.get("inactive"):
            c.detectors.activate_detectors(c.ancs)
        ks = range(len(c.layouts))
        e = enc.Enc()
        ms = []
        for _ in range(cfg["rounds"]):
            m0 = e.num_meas
            circ = c.blk.qec_round(c.model, c.layouts[0], c.detectors) if google else c.round(ks)
            e.feed(circ)
            ms.append(once(e, m0, e.num_meas, [a for k in ks for a in c.layouts[k].get_qubits(role="anc")], c.inds))
        sign = 2 if google else 0
        prods = []
        reset = c.reset and not google
        for k in ks:
            ops = Ops(c.layouts[k], c.v in zoo.XZZX)
            for a, (x, z) in ops.stabs.items():
                ia = c.inds[a]
                for r in range(len(ms)):
                    m, s = {ms[r][a]}, z
                    if r and not reset and not google:
                        m = m | {ms[r - 1][a]}
                    elif not reset and r == 0:
                        s = z | {ia}
                    prods.append(e.prod(m=m, kind="flow", fx=x, fz=s, v=sign))
                # the ancilla is left alone, in the measured state
                prods.append(e.prod(m=set() if google else {ms[-1][a]}, z={ia}, kind="flow", v=0))
                prods.append(e.prod(x=x, z=z, kind="flow", fx=x, fz=z, v=sign))
            for x, z in list(ops.log.values()) + [xor_ops(ops.log.values())]:
                prods.append(e.prod(x=x, z=z, kind="flow", fx=x, fz=z, v=sign))
        return dict(id=i, instr=e.instr, prods=prods, prog=PROG, gens=[])

    return call(f, 120)


def final(arg):
    """Google: the last round that also reads the data qubits out."""
    i, cfg = arg

    def f():
        c = progs.Codes(cfg)
        c.start()
        c.detectors.activate_detectors(c.ancs)
        circ = c.blk.qec_round_with_log_meas(c.model, c.layouts[0], c.detectors, rot_basis=cfg["rot"])
        e = enc.Enc(circ)
        out = {}
        for k, (q, _, _) in enumerate(e.meas):
            if q in out:
                raise ValueError(f"qubit {q} is measured twice")
            out[q] = k
        ops = Ops(c.layouts[0], True)
        b = "X" if cfg["rot"] else "Z"
        prods = []
        for a, (x, z) in ops.stabs.items():
            prods.append(e.prod(m={out[c.inds[a]]}, kind="flow", fx=x, fz=z | {c.inds[a]}, v=2))
            if ops.type[a] == b:
                prods.append(e.prod(m={out[q] for q in x | z}, kind="flow", fx=x, fz=z, v=2))
        x, z = ops.log[b]
        prods.append(e.prod(m={out[q] for q in x | z}, kind="flow", fx=x, fz=z, v=2))
        return dict(id=i, instr=e.instr, prods=prods, prog=PROG, gens=[])

    return call(f, 120)


def configs(c):
    rng = random.Random(c.seed + 4)
    jobs = []
    top = 8 if c.thorough else 6
    for v in zoo.MEM:
        google = "google" in v
        sizes = [(a, b) for a in range(2, top) for b in range(2, top) if c.thorough or a * b <= 20 or a == b == 5]
        for dz, dx in sizes:
            for reset in ((True,) if google else (True, False)):
                jobs.append(("plain", dict(v=v, sizes=[(dz, dx)], reset=reset, rounds=1 + (dz + dx) % 3, inactive=(dz % 2 == 0),
                                           frame=rng.choice(zoo.FRAMES), ind=rng.choice([0, 5]),
                                           model=rng.choice(["noiseless", "circuit", "phenom", "incoming", "biased"]))))
            if google:
                for rot in (False, True):
                    jobs.append(("final", dict(v=v, sizes=[(dz, dx)], rot=rot, model=rng.choice(["noiseless", "circuit"]))))
        for dz, dx in ((1, 2), (2, 1), (1, 3), (3, 1)):
            jobs.append(("plain", dict(v=v, sizes=[(dz, dx)], reset=True, rounds=2, frame="post-gate", model="noiseless",
                                       key=f"distance-one {v} dz={dz} dx={dx}")))
        if not google:
            for _ in range(40 if c.thorough else 8):
                n = rng.randint(2, 3)
                jobs.append(("plain", dict(v=v, sizes=[rng.choice([(2, 2), (3, 2), (2, 3), (3, 3), (3, 4)]) for _ in range(n)],
                                           reset=rng.random() < .5, rounds=rng.randint(1, 2), gap=rng.choice([0, 3]),
                                           frame=rng.choice(zoo.FRAMES), model=rng.choice(["noiseless", "circuit"]))))
            jobs.append(("plain", dict(v=v, sizes=[rng.choice([(2, 2), (3, 2)]) for _ in range(6)], reset=rng.random() < .5, rounds=2,
                                       frame=rng.choice(zoo.FRAMES), model="noiseless", mix=1)))
        jobs.append(("plain", dict(v=v, sizes=[rng.choice([(11, 2), (2, 11), (6, 6), (7, 4)])], reset=True, rounds=2 - google,
                                   frame="post-gate", model="noiseless")))
    for k, (_, cfg) in enumerate(jobs):
        if k % 4 == 1 and "key" not in cfg:
            cfg["mix"] = k
    return jobs


def _run(a):
    return {"plain": plain, "final": final}[a[0]](a[1])


def body(c):
    jobs = configs(c)
    res = pmap(_run, [(f, (k, cfg)) for k, (f, cfg) in enumerate(jobs)])
    cases = []
    for (f, cfg), (case, err) in zip(jobs, res):
        if err:
            c.violation("raised", dict(kind=f, config=cfg, error=err), cfg.get("key"))
        else:
            cases.append(case)
    bad, st = validate("CircuitTrace", cases, timeout=3000 if c.thorough else 800)
    c.stats(st)
    for i, (prod, clause, n) in bad.items():
        p = next(x for x in cases if x["id"] == i)["prods"][prod - 1]
        c.violation(clause, dict(kind=jobs[i][0], config=jobs[i][1], operator=p, failing=n), jobs[i][1].get("key"))
    c.count("rounds", len(jobs))
    c.count("operators_judged", sum(len(x["prods"]) for x in cases))
    for _, cfg in jobs[:2] + jobs[-1:]:
        c.sample(cfg)
    c.assumptions += ["ancillas of the echo variant are reset at the end of the previous round"]


if __name__ == "__main__":
    import sys
    sys.exit(main("C04", body))
