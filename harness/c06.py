"""C06: logical gates implement the declared logical action and stabilizer map."""
import random

import stim

import enc, progs, zoo
from expcheck import Ops, decompose, xor_ops
from vlib import call, main, pmap, validate

PROG = dict(basis="Z", sups=[], init=[], gates=[])
# U^-1 (operator) U for the named gate: (logical factors in order, phase i^p)
ACTION = {
    "s": {("X", 0): ([("X", 0), ("Z", 0)], 3), ("Z", 0): ([("Z", 0)], 0)},
    "h": {("X", 0): ([("Z", 0)], 0), ("Z", 0): ([("X", 0)], 0)},
    "x": {("X", 0): ([("X", 0)], 0), ("Z", 0): ([("Z", 0)], 2)},
    "z": {("X", 0): ([("X", 0)], 2), ("Z", 0): ([("Z", 0)], 0)},
    "cnot": {("X", 0): ([("X", 0), ("X", 1)], 0), ("Z", 0): ([("Z", 0)], 0),
             ("X", 1): ([("X", 1)], 0), ("Z", 1): ([("Z", 0), ("Z", 1)], 0)},
}


def one(arg):
    i, cfg = arg

    def f():
        from surface_sim import Detectors
        from surface_sim.detectors import get_new_stab_dict_from_layout
        import surface_sim.circuit_blocks.util as u

        g, v = cfg["gate"], cfg["v"]
        fam = zoo.MEM[v][1]
        lays = [zoo.layout(fam, cfg["dz"], cfg["dx"], **cfg.get("lay", {}))]
        cs = [tuple(lays[0].param("coords", q)) for q in zoo.corners(lays[0])]
        if cfg.get("mix"):
            lays = [zoo.mixed(lays[0], cfg["mix"], order=g != "cnot")]
        if g == "cnot":
            a = lays[0]
            lays.append(zoo.layout(fam, cfg["dz"], cfg["dx"], label="other", point=cfg["far"], did=1000, zid=1000, xid=1000,
                                   ind=a.get_max_ind() + 1))
            if cfg.get("mix"):
                lays[1] = zoo.mixed(lays[1], cfg["mix"] + 1, a.get_qubits(), order=False)
            if cfg["flip"]:
                lays.reverse()
            zoo.loggates(fam).set_trans_cnot(*lays)
            if cfg["both"]:
                zoo.loggates(fam).set_trans_cnot(lays[1], lays[0])
        elif g in "sh":
            at = {tuple(lays[0].param("coords", q)): q for q in zoo.corners(lays[0])}
            cs = [at[x] for x in cs]
            q = cs[cfg["corner"] % len(cs)] if fam == "unrot" else cs[0]
            getattr(zoo.loggates(fam), f"set_trans_{g}")(lays[0], q)
            for h in cfg.get("also", []):
                getattr(zoo.loggates(fam), f"set_trans_{h}")(lays[0], cs[(cfg["corner"] + 1) % len(cs)])
        inds, ancs = {}, []
        for l in lays:
            inds.update(l.qubit_inds())
            ancs += l.get_qubits(role="anc")
        model = zoo.make_model(cfg.get("model", "noiseless"), inds)
        model.new_circuit()
        det = Detectors(ancs, frame="post-gate")
        det.activate_detectors(ancs)
        blk = zoo.bmod(v)
        if g in ("x", "z"):
            circ = getattr(blk, f"log_{g}")(model, lays[0], det)
            declared = {}
        elif g == "cnot":
            circ = u.log_trans_cnot(model, *lays, det)
            lab = f"trans-cnot_{lays[0].get_logical_qubits()[0]}_{lays[1].get_logical_qubits()[0]}"
            declared = {**get_new_stab_dict_from_layout(lays[0], lab), **get_new_stab_dict_from_layout(lays[1], lab)}
        else:
            circ = getattr(u, f"log_trans_{g}")(model, lays[0], det)
            declared = get_new_stab_dict_from_layout(lays[0], f"trans-{g}_{lays[0].get_logical_qubits()[0]}")
        e = enc.Enc(circ)
        if e.meas:
            raise ValueError("a unitary gate measures")
        ops = [Ops(l, v in zoo.XZZX) for l in lays]
        stabs = {a: o for p in ops for a, o in p.stabs.items()}
        prods = []
        for a, (x, z) in stabs.items():
            fx, fz = xor_ops(stabs[b] for b in declared.get(a, [a]))
            prods.append(e.prod(x=x, z=z, kind="flow", fx=fx, fz=fz, v=0 if g in ("x", "z") else 2))
            prods.append(e.prod(z={inds[a]}, kind="flow", fz={inds[a]}, v=0))  # the ancillas are left alone
            prods.append(e.prod(x={inds[a]}, kind="flow", fx={inds[a]}, v=0))
        # logical action: as an ordered product of logicals and stabilizers, with its sign
        gens = [(x, z) for x, z in stabs.values()] + [p.log[t] for p in ops for t in "XZ"]
        pos = {(t, k): len(stabs) + 2 * k + (t == "Z") for k in range(len(ops)) for t in "XZ"}
        image = backward(e)
        for (t, k), (fac, ph) in ACTION[g].items():
            x, z = ops[k].log[t]
            target = [pos[y] for y in fac]
            rest = image(x, z)
            more = decompose(xor_ops([rest] + [gens[j] for j in target]), gens[:len(stabs)]) if rest else []
            prods.append(e.prod_of(x, z, [j + 1 for j in target + (more or [])], ph))
        return dict(id=i, instr=e.instr, prods=prods, prog=PROG, gens=[dict(x=sorted(x), z=sorted(z)) for x, z in gens])

    return call(f, 120)


def backward(e):
    """Proposes (x, z) of an operator pulled back through a Clifford circuit, only
    used to guess the stabilizer factors; the specification computes it itself."""
    inv = stim.Circuit()
    for ins in reversed(e.instr):
        t = ins["t"]
        name = {"S": "S_DAG", "S_DAG": "S"}.get(ins["op"], ins["op"])
        pairs = [q for p in t for q in p] if t and isinstance(t[0], list) else t
        if ins["op"] in ("CX", "CZ", "SWAP"):
            for a, b in reversed(t):
                inv.append(name, [a, b])
        elif pairs and name in ("H", "X", "Y", "Z", "S", "S_DAG"):
            inv.append(name, pairs)
    n = max([inv.num_qubits] + [1])

    def image(x, z):
        m = max([n - 1, *x, *z]) + 1
        p = stim.PauliString(m)
        for q in x | z:
            p[q] = {(True, False): "X", (False, True): "Z", (True, True): "Y"}[(q in x, q in z)]
        p = p.after(inv)
        xs, zs = p.to_numpy()
        return {int(k) for k in xs.nonzero()[0]}, {int(k) for k in zs.nonzero()[0]}

    return image


def configs(c):
    rng = random.Random(c.seed + 6)
    top = 7 if c.thorough else 5
    jobs = []
    # places whose coordinates are not exact in binary, too
    lays = zoo.LAYS + [dict(point=(.1, .7), ind=2), dict(point=(-3.3, 1 / 3), label="Q")]
    for v in zoo.MEM:
        for g in "xz":
            for dz, dx in [(a, b) for a in range(2, top) for b in range(2, top)]:
                jobs.append(dict(v=v, gate=g, dz=dz, dx=dx, lay=rng.choice(lays), model=rng.choice(["noiseless", "circuit"])))
    for d in range(2, top + 1):
        for lay in lays:
            jobs.append(dict(v="rot_css", gate="s", dz=d + 1, dx=d, corner=0, lay=lay))
            for corner in range(4):
                jobs.append(dict(v="unrot_css", gate="s", dz=d, dx=d, corner=corner, lay=lay, also=rng.choice([[], ["h"]]),
                                 model=rng.choice(["noiseless", "circuit"])))
                jobs.append(dict(v="unrot_css", gate="h", dz=d, dx=d, corner=corner, lay=lay, also=rng.choice([[], ["s"]]),
                                 model=rng.choice(["noiseless", "circuit"])))
    for v in ("rot_css", "unrot_css"):
        for dz, dx in [(a, b) for a in range(2, top) for b in range(2, top)]:
            if v == "rot_css" and dz * dx > (16 if c.thorough else 9):
                continue  # the isomorphism search of the library is exponential
            for flip in (False, True):
                jobs.append(dict(v=v, gate="cnot", dz=dz, dx=dx, flip=flip, both=rng.random() < .5, far=rng.choice([(60, 60), (-70.5, 3), (.2, 90.1), (4e5, -1e6)]),
                                 lay=rng.choice(lays), model=rng.choice(["noiseless", "circuit"])))
    for k, j in enumerate(jobs):
        if k % 3 == 0:
            j["mix"] = k + 1
    return jobs


def body(c):
    jobs = configs(c)
    res = pmap(one, list(enumerate(jobs)), chunksize=4)
    cases = []
    for cfg, (case, err) in zip(jobs, res):
        if err:
            c.violation("raised", dict(config=cfg, error=err))
        else:
            cases.append(case)
    bad, st = validate("CircuitTrace", cases, timeout=3000 if c.thorough else 800)
    c.stats(st)
    for i, (prod, clause, n) in bad.items():
        p = next(x for x in cases if x["id"] == i)["prods"][prod - 1]
        c.violation(clause, dict(config=jobs[i], operator=p, failing=n))
    c.count("gates", len(jobs))
    c.count("operators_judged", sum(len(x["prods"]) for x in cases))
    for cfg in jobs[:1] + jobs[-2:]:
        c.sample(cfg)


if __name__ == "__main__":
    import sys
    sys.exit(main("C06", body))
