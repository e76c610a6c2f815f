"""C02: detectors compare a stabilizer with its gate-propagated previous value."""
import os
import random
import tempfile
from concurrent.futures import ThreadPoolExecutor

import dets, insitu, zoo
from vlib import SPECS, call, main, pmap, run_tlc, validate


def model_cfg(n, ln, frame, reset):
    t = (SPECS / "DetectorsModel.cfg").read_text()
    return (t.replace("N = 2", f"N = {n}").replace("MaxLen = 6", f"MaxLen = {ln}").replace('"post-gate"', f'"{frame}"')
            .replace("Reset = FALSE", f"Reset = {str(reset).upper()}"))


def check_model(a):
    n, ln, frame, reset = a
    fd, path = tempfile.mkstemp(suffix=".cfg")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(model_cfg(*a))
        return run_tlc("DetectorsModel", cfg=path, workers=2, timeout=1500)
    finally:
        os.unlink(path)


def one(arg):
    i, cfg, hist = arg

    def f():
        r = dets.Recorder(cfg)
        if hist is None:
            dets.random_history(r, cfg["len"])
        else:
            dets.replay(r, hist)
        return r.case(i), r.ops

    return call(f, 120)


def canonical(c):
    """The recorded finding: a code is switched off while a gate that mixes it with a
    remaining one is pending; the remaining detector must still compare X1 with X1*X2."""
    r = dets.Recorder(dict(n=2, seed=0, frame="post-gate", reset=True))
    r.activate([1, 2])
    r.round([1, 2])
    r.gate([{1, 2}, {2}], how="dict")
    r.deactivate([2])
    r.round([1])
    got = [d["m"] for d in r.ops[-1]["dets"] if d["a"] == 1]
    want = [[1, 1], [1, 2], [2, 1]]
    if len(got) != 1 or sorted(got[0]) != want:
        c.violation("outcomes", dict(history="activate 1,2; round; gate 1->1*2; deactivate 2; round", got=got, want=want),
                    key="deactivate-with-pending-mixed-gate")


def inside(c):
    """The calls made to the detector builders inside real experiments and programs."""
    cfgs = insitu.configs(random.Random(c.seed + 12), 80 if c.thorough else 16, c.thorough)
    res = pmap(insitu.one, cfgs, chunksize=4)
    cases, of = [], []
    for cfg, (x, err) in zip(cfgs, res):
        if err:
            c.violation("experiment raised", dict(config=cfg, error=err))
            continue
        c.count("histories_not_judged", len(x[2]))
        for h in x[1]:
            cases.append(dict(h, id=len(cases)))
            of.append(cfg)
    bad, st = validate("DetectorsTrace", cases, timeout=3000)
    c.stats(st)
    c.count("builders_of_experiments", len(cases))
    c.count("detectors_judged_inside_experiments", sum(len(o.get("dets", [])) for x in cases for o in x["ops"]))
    for i, (pc, clause) in bad.items():
        if clause == "illegal":  # not a use the property speaks about
            c.count("histories_not_judged")
        else:
            c.violation(clause, dict(config=of[i], failing_call=cases[i]["ops"][pc - 1]))


def body(c):
    rng = random.Random(c.seed + 2)
    models = [(2, 9 if c.thorough else 7, f, r) for f in ("post-gate", "pre-gate") for r in (True, False)]
    models += [(3, 6 if c.thorough else 5, f, r) for f in ("post-gate", "pre-gate") for r in (True, False)]
    num = 2000 if c.thorough else 250
    jobs = []
    with ThreadPoolExecutor(4) as ex:
        sims = [ex.submit(dets.behaviours, num, n, ln, 8, c.seed * 100 + n) for n, ln in ((2, 14), (3, 18), (4, 24), (5, 30))]
        mcs = [ex.submit(check_model, a) for a in models]
        for s in sims:
            for h in s.result():
                jobs.append(h)
        for m in mcs:
            r = m.result()
            c.stats(dict(states=r.distinct, transitions=r.generated, traces=0))
            c.count("model_states", r.distinct)
    hists = []
    for h in jobs:
        n = max([2] + [x for o in h for x in (o.get("s") or []) + [a for a, _ in enumerate(o.get("u") or [], 1)]])
        hists.append((dict(n=n, seed=rng.randrange(10 ** 6), frame=rng.choice(zoo.FRAMES), reset=rng.random() < .5), h))
    for _ in range(4000 if c.thorough else 500):
        hists.append((dict(n=rng.randint(2, 12), seed=rng.randrange(10 ** 6), frame=rng.choice(zoo.FRAMES), reset=rng.random() < .5,
                           len=rng.randint(8, 40)), None))
    for k in range(48 if c.thorough else 12):  # many stabilizers, or many calls
        hists.append((dict(n=rng.randint(13, 40) if k % 2 else rng.randint(2, 5), seed=rng.randrange(10 ** 6), frame=zoo.FRAMES[k // 2 % 3],
                           reset=rng.random() < .5, len=25 if k % 2 else 240), None))
    res = pmap(one, [(i, cfg, h) for i, (cfg, h) in enumerate(hists)], chunksize=8)
    cases, ops = [], {}
    for i, ((cfg, h), (x, err)) in enumerate(zip(hists, res)):
        if err:
            c.violation("raised", dict(config=cfg, history=h, error=err))
        else:
            cases.append(x[0])
            ops[i] = x[1]
    for k in range(0, len(cases), 1000):
        bad, st = validate("DetectorsTrace", cases[k:k + 1000], timeout=2000)
        c.stats(st)
        for i, (pc, clause) in bad.items():
            if clause == "illegal":
                raise RuntimeError(f"illegal history generated: {hists[i]} at {pc}: {ops[i]}")
            c.violation(clause, dict(config=hists[i][0], call=pc, ops=ops[i][:pc]))
    canonical(c)
    inside(c)
    c.count("histories", len(hists))
    c.count("calls", sum(len(x["ops"]) for x in cases))
    c.count("detectors_judged", sum(len(o.get("dets", [])) for x in cases for o in x["ops"]))
    for cfg, h in hists[:2] + hists[-1:]:
        c.sample([cfg, h])
    c.assumptions += ["all active stabilizers are measured in every round",
                      "gates act on active stabilizers; no gate mixing a switched-off stabilizer with a remaining one is pending"]


if __name__ == "__main__":
    import sys
    sys.exit(main("C02", body))
