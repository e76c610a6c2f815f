"""C17: memory experiments keep the code distance at the circuit level."""
import random

import enc, expcheck, zoo
from vlib import call, main, pmap, run_tlc, validate


def one(arg):
    i, cfg = arg

    def f():
        b = zoo.build(cfg)
        e = enc.Enc(b.circuit)
        used = sorted({q for x in e.instr for t in x["t"] for q in (t if isinstance(t, list) else [t])})
        num = {q: k + 1 for k, q in enumerate(used)}
        instr = [dict(x, t=[[num[q] for q in t] if isinstance(t, list) else num[t] for t in x["t"]]) for x in e.instr]
        reads = [set() for _ in range(e.num_meas)]
        dets = [d for d in e.dets if d[0]]
        for k, d in enumerate(dets):
            for o in d[0]:
                reads[o] ^= {k + 1}
        for k, raw in e.obs.items():
            for o in enc.odd(raw):
                reads[o] ^= {-k}
        types = expcheck.type_of(b)
        own = "x_type" if cfg["rot"] else "z_type"
        kind = [k + 1 for k, d in enumerate(dets) if types.get(expcheck.det_anc(b, d)) == own]
        # where a round has ended and another begins: its detectors stand there
        ends = sorted({d[3] for d in e.dets})
        rounds = zoo.rounds_of(cfg)
        mids = [dict(at=p, data=[num[b.inds[q]] for q in b.data]) for p in ends[:rounds - 1]] if rounds > 1 else []
        d = min(cfg["dz"], cfg["dx"]) if "gate" in cfg else cfg["dz"] if cfg["rot"] else cfg["dx"]
        return dict(id=i, n=len(used), instr=instr, reads=[sorted(r) for r in reads], kind=kind, d=d, dets=len(dets), mids=mids,
                    obs=len(e.obs), ends=len(ends), walks="gate" not in cfg)

    return call(f, 120)


def configs(c):
    T = c.thorough
    rng = random.Random(c.seed + 17)
    sizes = [(2, 2), (2, 3), (3, 2), (3, 3), (3, 4), (4, 3)] + ([(4, 4), (3, 5), (5, 3), (4, 5), (5, 4), (5, 5), (2, 6), (6, 2)] if T else [])
    out = []
    k = 0
    for v in zoo.MEM:
        for rot in (False, True):
            for reset in ((True,) if "google" in v else (True, False)):
                for dz, dx in sizes:
                    for frame in (zoo.FRAMES if T else [zoo.FRAMES[k % 3]]):
                        k += 1
                        r = rng.randint(2, max(dz, dx)) if not T else rng.randint(2, max(dz, dx) + 1)
                        out.append(dict(v=v, dz=dz, dx=dx, rounds=r, rot=rot, reset=reset, frame=frame, gauge=False,
                                        init=["seed", k], lay=zoo.LAYS[k % len(zoo.LAYS)]))
                k += 1
                out.append(dict(v=v, dz=3, dx=3, rounds=1, rot=rot, reset=reset, frame=zoo.FRAMES[k % 3], gauge=False, init=0))
    g = zoo.gate_configs(rng, 1200 if T else 90, small=4 if T else 3, max_ng=6 if T else 4, max_rounds=3 if T else 2)
    out += [dict(x, ng=x["ng"] or 2) for x in g]
    if T:
        for v in zoo.MEM:
            for dz, dx in ((7, 5), (5, 7), (6, 6), (7, 7), (9, 3), (3, 9)):
                for rot in (False, True):
                    out.append(dict(v=v, dz=dz, dx=dx, rounds=rng.randint(2, 7), rot=rot, reset=bool(rng.randint(0, 1)) or "google" in v,
                                    frame=rng.choice(zoo.FRAMES), gauge=False, init=["seed", k]))
        for v in zoo.MEM:
            for rot in (False, True):
                out.append(dict(v=v, dz=7 if rot else 3, dx=3 if rot else 7, rounds=4, rot=rot, reset=bool(rng.randint(0, 1)) or "google" in v, frame="post-gate", gauge=False, init=0))
    else:
        for v in zoo.MEM:
            rot = rng.random() < .5
            out.append(dict(v=v, dz=5, dx=5, rounds=2, rot=rot, reset=True, frame="post-gate", gauge=False, init=0))
    return out


def body(c):
    T = c.thorough
    for m in ("FaultsModel", "WalksModel"):
        r = run_tlc(m, m + ("Deep.cfg" if T else ".cfg"))
        c.stats(dict(states=r.distinct, transitions=r.generated, traces=0))
        c.count("model_states", r.distinct)
    cfgs = configs(c)
    res = pmap(one, list(enumerate(cfgs)))
    cases = []
    for cfg, (case, err) in zip(cfgs, res):
        if err:
            c.violation("raised", dict(config=cfg, error=err))
        else:
            cases.append(case)
    # the long ones first, so that no worker ends alone
    cases.sort(key=lambda x: -len(x["instr"]) * x["n"])
    hyper = exact = 0
    for k in range(0, len(cases), 200):
        part = cases[k:k + 200]
        bad, st = validate("FaultsTrace", part, timeout=3400 if T else 800, heap="16g")
        c.stats(st)
        for x in part:
            if x["id"] in bad:
                c.violation(bad[x["id"]][0], dict(config=cfgs[x["id"]], distance=x["d"], detector=bad[x["id"]][1]))
        for _, i, n, h, full in st["tlc"].tuples("COUNT"):
            c.count("faults_judged", n)
            if "gate" not in cfgs[i]:
                hyper += h
                exact += bool(full)
    c.count("experiments", len(cfgs))
    c.extra["faults_beyond_two_detectors_of_the_basis"] = hyper
    c.extra["distance_reached_exactly"] = exact
    c.sample(cfgs[0])
    c.sample(cfgs[-1])
    c.assumptions += ["faults that flip more than two detectors of the measured basis are combined in pairs only",
                      "experiments with logical gates: faults combined in pairs only (distance three and more)",
                      "stim circuit instructions mean what specs/Pauli.tla says"]


if __name__ == "__main__":
    import sys
    sys.exit(main("C17", body))
