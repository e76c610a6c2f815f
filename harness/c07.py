"""C07: every qubit does exactly one thing per time step."""
import random
from concurrent.futures import ThreadPoolExecutor

import noise, progs, zoo
from vlib import call, main, pmap, validate

FULL = ("circuit", "biased")
INC = ("phenom", "incoming")


def events(circ):
    """Events of a circuit, separators included."""
    import stim

    out, part = [], stim.Circuit()

    def flush():
        nonlocal part
        for x in noise.events(part, _Ids()):
            out.append(dict(e=x["e"], g=x.get("g", "") + x.get("b", ""), q=x["q"]))
        part = stim.Circuit()

    for ins in circ.flattened():
        if ins.name == "TICK":
            flush()
            out.append(dict(e="tick", g="", q=[]))
        else:
            part.append(ins)
    flush()
    return out


class _Ids(dict):
    def get(self, k, d=None):
        return k


def case(i, a, b, part, data, model, inc, per, block=False):
    return dict(id=i, ideal=events(a), noisy=events(b), part=sorted(part), data=sorted(data), full=model in FULL, inc=inc, per=per,
                block=block)


def incoming(m, q):
    """Channels of incoming noise of the model on a qubit."""
    return sum(e["e"] == "ch" for e in events(m.incoming_noise([q])))


def experiment(arg):
    i, cfg, model = arg

    def f():
        a = zoo.build(dict(cfg, model="noiseless"))
        b = zoo.build(dict(cfg, model=model))
        # the read-out of the google variant is part of its last round
        inc = cfg["rounds"] + ("google" not in cfg["v"]) if model in INC and not cfg.get("gate") else -1
        return [case(i, a.circuit, b.circuit, a.inds.values(), [a.inds[q] for q in a.data], model, inc,
                     incoming(zoo.make_model(model, a.inds), a.data[0]))]

    return call(f, 120)


def program(arg):
    i, cfg, hist, model = arg

    def f():
        runs = [progs.replay(dict(cfg, model=m), hist) for m in ("noiseless", model)]
        out = []
        for n, (s, t) in enumerate(zip(runs[0][2], runs[1][2])):
            lays = [runs[0][0].layouts[k] for k in s["who"]]
            part = {x for l in lays for x in l.qubit_inds().values()}
            data = {l.qubit_inds()[q] for l in lays for q in l.get_qubits(role="data")}
            inc = s["st"]["op"] != "init" if model in INC else -1
            out.append(case(i + n, s["circ"], t["circ"], part, data, model, int(inc), incoming(runs[1][0].model, lays[0].get_qubits(role="data")[0]), True))
        return out

    return call(f, 120)


def models(rng):
    return rng.choice(["circuit", "circuit", "biased", "phenom", "incoming"])


def body(c):
    rng = random.Random(c.seed + 7)
    jobs = []
    with ThreadPoolExecutor(4) as ex:
        futs = [(w, ex.submit(progs.behaviours, 150 if c.thorough else 16, s["gates"], 3, 12, 6, 8, c.seed * 10 + k))
                for k, (w, s) in enumerate(progs.SETS.items())]
        hists = [(w, h) for w, f in futs for h in f.result()]
    k = 0
    for v in zoo.MEM:
        for rot in (False, True):
            for reset in ((True,) if "google" in v else (True, False)):
                for dz, dx in ((3, 3), (2, 4)):
                    k += 1
                    jobs.append(dict(v=v, dz=dz, dx=dx, rounds=2, rot=rot, reset=reset, init=["seed", k], lay=zoo.LAYS[k % 4]))
    n = 400 if c.thorough else 50
    jobs += zoo.memory_configs(rng, n, [(2, 2), (2, 3), (3, 2), (3, 3), (4, 3), (3, 5)] + [(5, 5), (6, 5)] * c.thorough, max_rounds=3)
    jobs += zoo.gate_configs(rng, n, small=4, max_ng=4, max_rounds=2)
    exps = [(i, cfg, models(rng)) for i, cfg in enumerate(jobs)]
    ps = [(10 ** 6 + 1000 * i, progs.prog_cfg(rng, w), h, models(rng)) for i, (w, h) in enumerate(hists)]
    res = pmap(experiment, exps) + pmap(program, ps)
    cases, src = [], {}
    for a, (x, err) in zip(exps + ps, res):
        if err:
            c.violation("raised", dict(config=a[1], program=a[2] if len(a) > 3 else None, model=a[-1], error=err))
            continue
        for m in x:
            src[m["id"]] = dict(config=a[1], model=a[-1], **(dict(program=a[2], block=m["id"] - a[0]) if len(a) > 3 else {}))
        cases += x
    for k in range(0, len(cases), 500):
        bad, st = validate("LayersTrace", cases[k:k + 500], timeout=3000)
        c.stats(st)
        for i, (step, clause) in bad.items():
            c.violation(clause, dict(src[i], step=step))
    c.count("experiments", len(exps))
    c.count("block_programs", len(ps))
    c.count("blocks", len(cases) - len(exps))
    c.count("time_steps", sum(1 + sum(e["e"] == "tick" for e in x["ideal"]) for x in cases))
    c.sample(exps[0])
    c.sample([ps[0][1], [s["op"] for s in ps[0][2]], ps[0][3]])
    c.assumptions += ["idling is visible in the noiseless circuit as the identity gate",
                      "experiments with models whose idling needs a duration cannot be built and are not covered"]


if __name__ == "__main__":
    import sys
    sys.exit(main("C07", body))
