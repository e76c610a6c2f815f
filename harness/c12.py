"""C12: detector count, order, coordinates and selection are as requested."""
import random

import stim

import enc, expcheck, progs, zoo
from vlib import call, main, pmap, validate

SC = 8  # coordinates are multiples of 1/8


def ints(cs):
    out = []
    for x in cs:
        y = x * SC
        if y != int(y):
            raise ValueError(f"coordinate {x} of a detector is not one of the layout")
        out.append(int(y))
    return out


def shape_case(i, dets, blocks, ancs, coords):
    """blocks: (t, dom, must) with ancilla labels."""
    num = {a: n + 1 for n, a in enumerate(ancs)}
    return dict(id=i, kind="shape", coords=[ints(coords[a]) if coords else [] for a in ancs],
                dets=[dict(c=ints(d[2]), n=len(d[0])) for d in dets],
                blocks=[dict(t=ints([t])[0], round=t == int(t), dom=sorted(num[a] for a in dom), must=sorted(num[a] for a in must if a in dom))
                        for t, dom, must in blocks])


def tokens(circuit, coords, ancs, names):
    num = {tuple(c): n + 1 for n, c in enumerate(ints(coords[a]) for a in ancs)}
    out, n = [], 0
    for ins in circuit.flattened():
        tg = ins.targets_copy()
        if ins.name == "DETECTOR":
            c = ints(ins.gate_args_copy())
            out.append(dict(k=0, a=num.get(tuple(c[:-1]), 0), t=c[-1] if c else -99, m=sorted(enc.odd([n + t.value for t in tg]))))
            continue
        if stim.gate_data(ins.name).produces_measurements or ins.name == "OBSERVABLE_INCLUDE":
            key = str(ins)
            n += len(tg) if stim.gate_data(ins.name).produces_measurements else 0
        elif stim.gate_data(ins.name).is_two_qubit_gate:
            key = (ins.name, str(ins.gate_args_copy()), str(sorted((tg[j].value, tg[j + 1].value) for j in range(0, len(tg), 2))))
        else:
            key = (ins.name, str(ins.gate_args_copy()), str(sorted(str(t) for t in tg)))
        out.append(dict(k=names.setdefault(key, len(names) + 1), a=0, t=0, m=[]))
    return out


PLAIN = dict(rot=False, gauge=True, reset=True, orient="alternating")


def experiment(arg):
    i, cfg = arg

    def f():
        rng = random.Random(cfg["sub"])
        b0 = zoo.build(dict(cfg, gauge=True, anc_detectors=None))
        sel = {"all": None, "none": [], "one": [rng.choice(b0.ancs)],
               "some": [a for a in b0.ancs if rng.random() < .5]}[cfg["pick"]]
        if sel and rng.random() < .5:
            rng.shuffle(sel)
        b = zoo.build(dict(cfg, anc_detectors=sel))
        types = expcheck.type_of(b)
        own = "x_type" if cfg.get("rot") else "z_type"
        chosen = set(b.ancs if sel is None else sel)
        e = enc.Enc(b.circuit)
        R = zoo.rounds_of(cfg)
        blocks = [(r, b.ancs, {a for a in chosen if cfg["gauge"] or r > 0 or types[a] == own}) for r in range(R)]
        stabs = [a for a in b.ancs if types[a] == own]
        blocks.append((R - .5, stabs, chosen))
        num = {a: n + 1 for n, a in enumerate(b.ancs)}
        names = {}
        diff = dict(id=4 * i + 1, kind="diff", full=tokens(b0.circuit, b.coords, b.ancs, names),
                    part=tokens(b.circuit, b.coords, b.ancs, names), sel=[num[a] for a in chosen], nogauge=not cfg["gauge"],
                    opp=[num[a] for a in b.ancs if types[a] != own])
        place = dict(id=4 * i + 2, kind="place", said=[dict(q=q, c=ints(xy)) for q, xy in sorted(e.coords.items())],
                     want=[dict(q=l.qubit_inds()[x], c=ints(xy)) for l in b.layouts for x, xy in l.qubit_coords().items()])
        # the options that are left out take their defaults
        plain = dict(cfg, **{k: v for k, v in PLAIN.items() if rng.random() < .7}, anc_detectors=None)
        said, left = zoo.build(plain), zoo.build(plain, omit=True)
        diff2 = dict(id=4 * i + 3, kind="diff", full=tokens(said.circuit, b.coords, b.ancs, names),
                     part=tokens(left.circuit, b.coords, b.ancs, names), sel=sorted(num.values()), nogauge=False, opp=[])
        return [shape_case(4 * i, e.dets, blocks, b.ancs, b.coords), diff, place, diff2]

    return call(f, 120)


def blocks(arg):
    """Rounds and read-outs of several codes, with random subsets, some codes inactive."""
    i, cfg = arg

    def f():
        from surface_sim import Detectors

        rng = random.Random(cfg["seed"])
        c = progs.Codes(cfg)
        named = cfg["named"]
        if not named:
            c.detectors = Detectors(c.ancs, frame=cfg["frame"])
        c.start()
        e = enc.Enc()
        on, R, bl, hist = set(), 0, [], []
        n = len(c.layouts)

        def subset(ks):
            pool = [a for k in ks for a in c.layouts[k].get_qubits(role="anc")]
            return rng.choice([None, None, [a for a in pool if rng.random() < .5], [], pool[:1]])

        while len(hist) < cfg["len"]:
            off = [k for k in range(n) if k not in on]
            op = rng.choice(["init"] * 2 + ["round"] * 3 + ["meas"] + ["pauli"])
            if op == "init" and off:
                k = rng.choice(off)
                e.feed(c.init_code(k, rng.choice("XZ"), c.bitstring(k, "Z", 0)))
                on.add(k)
            elif op == "round" and on:
                ks = sorted(on)
                if rng.random() < .5:
                    rng.shuffle(ks)
                s = subset(ks)
                e.feed(c.round(ks, anc_detectors=s))
                act = {a for k in ks for a in c.layouts[k].get_qubits(role="anc")}
                bl.append((R, c.ancs, act if s is None else act & set(s)))
                R += 1
            elif op == "meas" and on:
                k, b = rng.choice(sorted(on)), rng.choice("XZ")
                s = subset([k])
                e.feed(c.meas(k, b, anc_detectors=s))
                dom = [a for a in c.layouts[k].get_qubits(role="anc") if c.owner[a][1] == b]
                bl.append((R - .5, dom, dom if s is None else set(s)))
                on.discard(k)
            elif op == "pauli" and on:
                e.feed(c.gate(rng.choice("xz"), rng.choice(sorted(on))))
            else:
                continue
            hist.append(op)
        if on:
            ks = sorted(on)
            rng.shuffle(ks)
            bs = [rng.choice("XZ") for _ in ks]
            s = subset(ks)
            e.feed(c.measall(ks, bs, anc_detectors=s))
            dom = [a for k, b in zip(ks, bs) for a in c.layouts[k].get_qubits(role="anc") if c.owner[a][1] == b]
            bl.append((R - .5, dom, dom if s is None else set(s)))
        if not bl:
            bl = [(0, [], [])]
        return [shape_case(4 * i, e.dets, bl, c.ancs, c.coords if named else None)]

    return call(f, 120)


def configs(c):
    rng = random.Random(c.seed + 12)
    n = 800 if c.thorough else 120
    kw = dict(gauge=(False, True), models=("noiseless", "circuit", "phenom"), frames=zoo.FRAMES)
    dists = [(2, 2), (2, 3), (3, 2), (3, 3), (4, 3), (3, 5)] + ([(5, 5)] if c.thorough else [])
    jobs = []
    for cfg in zoo.memory_configs(rng, n, dists, max_rounds=5, **kw) + zoo.gate_configs(rng, n, small=4, max_ng=4, **kw) \
            + zoo.extreme_configs(rng):
        jobs.append(("experiment", dict(cfg, pick=rng.choice(["all", "none", "one", "some", "some", "some"]), sub=rng.randrange(10 ** 6))))
    for _ in range(n):
        cfg = progs.prog_cfg(rng, rng.choice(["none", "none", "rot_c", "unrot"]))
        cfg["sizes"] = cfg["sizes"][:rng.randint(1, 3)]
        cfg["gates"] = []
        cfg["frame"] = rng.choice(zoo.FRAMES)
        jobs.append(("blocks", dict(cfg, named=rng.random() < .7, len=rng.randint(3, 10))))
    return jobs


def _run(a):
    return {"experiment": experiment, "blocks": blocks}[a[0]](a[1])


def body(c):
    jobs = configs(c)
    res = pmap(_run, [(f, (k, cfg)) for k, (f, cfg) in enumerate(jobs)])
    cases = []
    for (f, cfg), (r, err) in zip(jobs, res):
        if err:
            c.violation("raised", dict(kind=f, config=cfg, error=err))
        else:
            cases += r
    for k in range(0, len(cases), 1200):
        bad, st = validate("Annotations", cases[k:k + 1200], timeout=2000)
        c.stats(st)
        for i, cl in bad.items():
            c.violation(cl[0], dict(kind=jobs[i // 4][0], config=jobs[i // 4][1]))
    c.count("circuits", len(jobs))
    c.count("detectors_judged", sum(len(x["dets"]) for x in cases if x["kind"] == "shape"))
    c.count("selections_compared", sum(1 for x in cases if x["kind"] == "diff"))
    for _, cfg in jobs[:1] + jobs[-2:]:
        c.sample(cfg)


if __name__ == "__main__":
    import sys
    sys.exit(main("C12", body))
