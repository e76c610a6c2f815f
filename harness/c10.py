"""C10: merging circuits is parallel composition."""
import random

import noise, progs, zoo
from vlib import call, main, pmap, run_tlc, validate

ANN = ("DETECTOR", "OBSERVABLE_INCLUDE")
MEAS = {"M", "MX", "MY", "MZ", "MR", "MRX", "MRY", "MRZ"}


class Log:
    """Steps, detectors and observables of consecutive circuits, outcomes numbered from 1."""

    def __init__(self):
        self.n = 0

    def feed(self, circ):
        steps, dets, obs = [[]], [], []
        for ins in circ.flattened():
            tg, args = ins.targets_copy(), ins.gate_args_copy()
            if ins.name == "TICK":
                steps.append([])
            elif ins.name == "DETECTOR":
                dets.append(dict(x=repr(list(args)), m=[self.n + t.value + 1 for t in tg]))
            elif ins.name == "OBSERVABLE_INCLUDE":
                obs.append(dict(i=int(args[0]), m=[self.n + t.value + 1 for t in tg]))
            else:
                for grp in ins.target_groups():
                    m = 0
                    if ins.name in MEAS:
                        self.n += 1
                        m = self.n
                    g = ins.name + repr(args) + "".join("!" for t in grp if t.is_inverted_result_target)
                    steps[-1].append(dict(g=g, q=[t.value for t in grp], m=m))
        return dict(steps=steps, dets=dets, obs=obs)


def rand_setup(rng, qubits):
    """Different probabilities for every qubit."""
    from surface_sim import Setup

    ds = [dict(sq_error_prob=.01, tq_error_prob=.02, meas_error_prob=.03, reset_error_prob=.04, idle_error_prob=.05,
               assign_error_flag=True, assign_error_prob=.06, biased_pauli="pauli", biased_factor=.7)]
    for q in qubits:
        if rng.random() < .5:
            ds.append(dict(qubit=q, sq_error_prob=rng.randint(0, 20) / 256, meas_error_prob=rng.randint(0, 20) / 256,
                           reset_error_prob=rng.randint(0, 20) / 256, idle_error_prob=rng.randint(0, 20) / 256,
                           assign_error_flag=rng.random() < .5, assign_error_prob=rng.randint(1, 20) / 256))
    s = Setup(dict(setup=ds))
    s.set_var_param("pauli", rng.choice("XYZ"))
    return s


def family_cfg(rng, k):
    """A joint history of several codes."""
    v = ["rot_css", "rot_css_pipe", "rot_xzzx", "rot_xzzx_pipe", "unrot_css"][k % 5]
    n = rng.choice([1, 2, 2, 3, 4]) if k % 20 else rng.choice([6, 11])
    gates = rng.choice([[], ["h"], ["s"], ["h", "s"]]) if v == "unrot_css" else rng.choice([[], ["s"]]) if v in ("rot_css", "rot_css_pipe") else []
    sizes = [(2, 2), (2, 3), (3, 2), (3, 3)]
    if gates:
        sizes = [(2, 2), (3, 3)] if v == "unrot_css" else [(3, 2), (4, 3)]
    if n > 4:
        sizes, gates = [(2, 2)], []
    pick = lambda: [rng.choice(sizes), rng.choice(sizes)] if not gates and rng.random() < .2 else rng.choice(sizes)
    return dict(v=v, sizes=[pick() for _ in range(n)], gates=gates, frame=rng.choice(zoo.FRAMES), reset=rng.random() < .6,
                corner=rng.randrange(4), seed=rng.randrange(10 ** 6), gap=rng.choice([0, 2]), rounds=rng.randint(0, 3),
                bases=[rng.choice("XZ") for _ in range(n)], order=rng.sample(range(n), n), always_merge=True,
                noise=rng.choice(["noiseless", "circuit", "circuit", "biased", "phenom", "incoming"]),
                skip=rng.choice([0, 0, 1]), paulis=rng.random() < .5)


def run(cfg, who):
    """The history of cfg restricted to the codes of who, as (owner or None if merged, circuit).
    A single code uses the functions that do not merge."""
    alone = who if isinstance(who, int) else None
    who = [alone] if alone is not None else who
    from surface_sim import Detectors

    rng = random.Random(cfg["seed"])
    c = progs.Codes(dict(cfg, model="noiseless", always_merge=alone is None))
    if cfg["noise"] != "noiseless":
        c.model = noise.model(cfg["noise"], rand_setup(rng, list(c.inds)), c.inds)
    who = [k for k in cfg["order"] if k in who]
    ancs = [a for k in sorted(who) for a in c.layouts[k].get_qubits(role="anc")]
    kept = {a for a in c.ancs if not cfg["skip"] or random.Random(f"{cfg['seed']}{a}").random() < .7}
    sel = [a for a in ancs if a in kept] if cfg["skip"] else None
    c.detectors = Detectors(ancs, frame=cfg["frame"], anc_coords={a: c.coords[a] for a in ancs})
    c.start()
    out = []
    for k in sorted(who):
        r = random.Random(f"{cfg['seed']} {k}")
        out.append((k, c.init_code(k, cfg["bases"][k], {q: r.randint(0, 1) for q in c.layouts[k].get_qubits(role="data")})))
    for t in range(cfg["rounds"]):
        for k in sorted(who):
            r = random.Random(f"{cfg['seed']} {k} {t}")
            for g in ["x", "z"] * cfg["paulis"] + cfg["gates"]:
                if r.random() < .4:
                    out.append((k, c.gate(g, k)))
        out.append((None, c.round(who, anc_detectors=sel)))
    if alone is not None:
        out.append((None, c.meas(alone, cfg["bases"][alone], anc_detectors=sel)))
    else:
        out.append((None, c.measall(who, [cfg["bases"][k] for k in who], anc_detectors=sel)))
    return c, out


def codes(arg):
    i, cfg = arg

    def f():
        n = len(cfg["sizes"])
        c, joint = run(cfg, range(n))
        logs, alone = [Log() for _ in range(n)], []
        for k in range(n):
            ck, blocks = run(cfg, k)
            alone.append([logs[k].feed(b) for _, b in blocks])
            l = c.layouts[k]
            if len(l.get_logical_qubits()) > 1:  # the functions that do not merge only know the first logical qubit
                last = {e["q"][0]: e["m"] for s in alone[k][-1]["steps"] for e in s if e["m"]}
                op = l.log_x if cfg["bases"][k] == "X" else l.log_z
                alone[k][-1]["obs"] = [dict(i=j, m=[last[q] for q in l.get_inds(op[x])])
                                       for j, x in enumerate(l.get_logical_qubits())]
        log, blocks, pos = Log(), [], [0] * n
        # every block of the joint history is a block of one code, or of all
        for k0, b in joint:
            m = log.feed(b)
            on = cfg["order"] if k0 is None else [k0]
            own = []
            for k in range(n):
                if k in on:
                    own.append(alone[k][pos[k]])
                    pos[k] += 1
                else:
                    own.append(dict(steps=[], dets=[], obs=[]))
            blocks.append(dict(merged=m, own=own, on=[k + 1 for k in on], ordered=False))
        lays = c.layouts
        wait = [Log().feed(c.model.idle(l.get_qubits()))["steps"][0] for l in lays]
        for b in blocks:
            b["wait"] = wait
        return dict(id=i, codes=[sorted(l.qubit_inds().values()) for l in lays], blocks=blocks)

    return call(f, 120)


# ---- circuits that are not made of blocks ----
ONE = ["H", "X", "S", "SQRT_X_DAG", "C_XYZ", "I", "R", "RX"]
TWO = ["CX", "CZ", "SWAP", "ISWAP"]


def rand_step(rng, qubits, meas, noisy):
    """A valid TICK block: every qubit at most one operation, and noise around it."""
    import stim

    circ = stim.Circuit()
    qs = rng.sample(qubits, len(qubits))
    ops = []
    while qs:
        r = rng.random()
        if meas and r < .5:
            name = rng.choice(["M", "M", "MX", "MR", "MY"])
            q = qs.pop()
            ops.append((name, [stim.target_inv(q) if rng.random() < .2 else q], [rng.randint(1, 9) / 64] if rng.random() < .4 else []))
        elif r < .7 and len(qs) > 1:
            ops.append((rng.choice(TWO), [qs.pop(), qs.pop()], []))
        elif r < .9:
            ops.append((rng.choice(ONE), [qs.pop()], []))
        else:
            qs.pop()
    for name, t, a in ops:
        p = [rng.randint(1, 9) / 256]
        if noisy and rng.random() < .4:
            circ.append("X_ERROR", [x.value if isinstance(x, stim.GateTarget) else x for x in t], p)
        circ.append(name, t, a)
        if noisy and rng.random() < .5:
            if len(t) == 2:
                circ.append("DEPOLARIZE2", t, p)
            else:
                circ.append(rng.choice(["DEPOLARIZE1", "Z_ERROR", "X_ERROR", "Y_ERROR"]),
                            [x.value if isinstance(x, stim.GateTarget) else x for x in t], p)
    return circ


def rand_circuits(rng):
    """Circuits on disjoint qubits with the same number of steps; many have equal step patterns."""
    import stim

    n = rng.randint(1, 4) if rng.random() < .95 else rng.randint(5, 12)
    ticks = rng.randint(1, 5)
    noisy, anywhere = rng.random() < .7, rng.random() < .3
    at = rng.randrange(ticks)
    pool = rng.sample(range(99), 99)
    circs, qsets = [], []
    proto = None
    for k in range(n):
        qs = [pool.pop() for _ in range(rng.randint(1, 5))]
        if proto is not None and rng.random() < .5:
            src, sq = proto
            qs = [pool.pop() for _ in sq]
            ren = dict(zip(sq, qs))
            steps = []
            for s in src:  # the same instructions on other qubits, other probabilities
                d = stim.Circuit()
                for ins in s:
                    tg = [stim.target_inv(ren[t.value]) if t.is_inverted_result_target else ren[t.value] for t in ins.targets_copy()]
                    a = [rng.randint(1, 9) / 256 for _ in ins.gate_args_copy()]
                    d.append(ins.name, tg, a)
                steps.append(d)
        else:
            steps = [rand_step(rng, qs, anywhere and rng.random() < .5 or t == at, noisy) for t in range(ticks)]
            if proto is None or rng.random() < .5:
                proto = (steps, qs)
        circs.append(steps)
        qsets.append(qs)
    return circs, qsets, not anywhere


def general(arg):
    i, seed = arg

    def f():
        import stim
        from surface_sim.util import merge_circuits
        from surface_sim.util.circuit_operations import merge_tick_blocks

        rng = random.Random(seed)
        circs, qsets, check = rand_circuits(rng)
        whole = []
        tick = stim.Circuit("TICK")
        for s in circs:
            c = stim.Circuit()
            for t, b in enumerate(s):
                c += b
                if t + 1 < len(s):
                    c += tick
            whole.append(c)
        blocks = []
        log, own = Log(), [Log() for _ in circs]
        on = list(range(1, len(circs) + 1))
        if rng.random() < .7:
            m = merge_circuits(*whole, check_meas=check) if not check or rng.random() < .5 else merge_circuits(*whole)
            if not check and rng.random() < .3 and len(circs) > 1:  # repetitions are unrolled
                rep = [stim.Circuit() for _ in whole]
                for r, c in zip(rep, whole):
                    r.append(stim.CircuitRepeatBlock(2, c + tick))
                whole = rep
                m = merge_circuits(*whole, check_meas=False)
            blocks.append(dict(merged=log.feed(m), own=[o.feed(c) for o, c in zip(own, whole)], on=on, ordered=True))
        else:
            for t in range(len(circs[0])):
                m = merge_tick_blocks(*[s[t] for s in circs])
                blocks.append(dict(merged=log.feed(m), own=[o.feed(s[t]) for o, s in zip(own, circs)], on=on, ordered=True))
        none = [[dict(g="never", q=qs[:1], m=0)] for qs in qsets]
        for b in blocks:
            b["wait"] = none
        return dict(id=i, codes=qsets, blocks=blocks), [str(w) for w in whole]

    return call(f, 60)


def body(c):
    rng = random.Random(c.seed + 10)
    r = run_tlc("MergeModel", "MergeModelDeep.cfg" if c.thorough else "MergeModel.cfg")
    c.stats(dict(states=r.distinct, transitions=r.generated, traces=0))
    c.count("merge_model_states", r.distinct)
    cfgs = [family_cfg(rng, k) for k in range(900 if c.thorough else 120)]
    a = list(enumerate(cfgs))
    b = [(10 ** 6 + k, rng.randrange(10 ** 9)) for k in range(6000 if c.thorough else 600)]
    ra, rb = pmap(codes, a), pmap(general, b, chunksize=20)
    cases, src = [], {}
    for (i, cfg), (x, err) in zip(a, ra):
        if err:
            c.violation("raised", dict(config=cfg, error=err))
        else:
            cases.append(x)
            src[i] = cfg
    for (i, s), (x, err) in zip(b, rb):
        if err:
            c.violation("raised", dict(circuits_seed=s, error=err))
        else:
            cases.append(x[0])
            src[i] = x[1]
    for k in range(0, len(cases), 400):
        bad, st = validate("MergeTrace", cases[k:k + 400], timeout=3000)
        c.stats(st)
        for i, (blk, step, clause) in bad.items():
            c.violation(clause, dict(source=src[i], block=blk, step=step))
    c.count("code_histories", len(ra))
    c.count("general_merges", len(rb))
    c.count("merged_steps", sum(len(k["merged"]["steps"]) for x in cases for k in x["blocks"]))
    c.count("merged_detectors", sum(len(k["merged"]["dets"]) for x in cases for k in x["blocks"]))
    c.sample(cfgs[0])
    c.sample(src.get(10 ** 6))
    c.assumptions += ["the merged circuits act on disjoint qubits and are valid (one operation per qubit and step)",
                      "a code without basis rotation idles in the read-out while another one rotates its basis"]


if __name__ == "__main__":
    import sys
    sys.exit(main("C10", body))
