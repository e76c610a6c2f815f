"""C13: sampled datasets label each outcome with its shot, round and qubit."""
import random

import zoo
from vlib import CaseTimeout, Machinery, call, describe_exc, main, pmap, run_tlc, validate

FAULTS = ["shots", "axes", "last", "first"]
MEAS = ("M", "MZ", "MX", "MY", "MR", "MRX", "MRY", "MRZ")


def some_layout(rng):
    """A layout with the qubits in any order."""
    from surface_sim.layouts import Layout

    v = rng.choice(list(zoo.MEM))
    fam = zoo.MEM[v][1]
    l = zoo.layout(fam, *rng.choice([(2, 2), (3, 2), (2, 3), (3, 3), (4, 2)] if rng.random() > .06 else [(5, 5), (11, 2), (2, 6)]),
                   ind=rng.randint(0, 5))
    if rng.random() < .6:
        d = l.to_dict()
        rng.shuffle(d["layout"])
        l = Layout(d)
    return v, l


def artificial(rng, l, rounds):
    """A circuit that measures like a memory experiment; every outcome is a chosen
    sum of constants and of bits that are random in every shot."""
    import stim

    inds = l.qubit_inds()
    anc, data = l.get_qubits(role="anc"), l.get_qubits(role="data")
    order = anc * rounds + data
    loop = rounds > 1 and rng.random() < .25  # equal rounds, written as a loop
    times = 1 if loop else rounds
    n = len(anc) * times + len(data)
    m = rng.randint(1, min(8, n))
    src = max(inds.values()) + 1
    shown = rng.sample(range(n), m)
    var = [[shown.index(k) + 1] if k in shown else rng.sample(range(1, m + 1), rng.randint(0, min(3, m))) for k in range(n)]
    ideal = [rng.randint(0, 1) for _ in range(n)]
    par = [int(b ^ (rng.random() < .3)) for b in ideal]

    def layer(qs, k):
        c = stim.Circuit()
        t = [inds[q] for q in qs]
        c.append("R", t, [])
        for i, x in enumerate(t):
            for j in var[k + i]:
                c.append("CX", [src + j - 1, x], [])
            if ideal[k + i]:
                c.append("X", [x], [])
            if par[k + i] != ideal[k + i]:
                c.append("X_ERROR", [x], [1])
        if rng.random() < .5:
            c.append("M", t, [])
        else:
            for x in t:
                c.append("M", [x], [])
        c.append("TICK", [], [])
        return c

    c = stim.Circuit()
    c.append("R", range(src, src + m), [])
    c.append("X_ERROR", range(src, src + m), [.5])
    for r in range(times):
        one = layer(anc, r * len(anc))
        c += one * rounds if loop else one
    c += layer(data, len(anc) * times)
    if loop:
        a = len(anc)
        more = a * (rounds - 1)
        var, ideal, par = [x[:a] * rounds + x[a:] for x in (var, ideal, par)]
        shown = [k if k < a else k + more for k in shown]
    return c, order, var, par, ideal, [k + 1 for k in shown], [], []


def real(rng, v, l, rounds):
    """A real experiment, some outcomes flipped; its detectors are the relations."""
    import stim
    from surface_sim import Detectors
    from surface_sim.models import NoiselessModel

    inds = l.qubit_inds()
    inv = {i: q for q, i in inds.items()}
    det = Detectors(l.get_qubits(role="anc"), frame=rng.choice(zoo.FRAMES), anc_coords=l.anc_coords())
    kw = dict(num_rounds=rounds, data_init={q: rng.randint(0, 1) for q in l.get_qubits(role="data")}, rot_basis=rng.random() < .5, gauge_detectors=False)
    if v != "rot_xzzx_google":
        kw["anc_reset"] = rng.random() < .6
    c = zoo.emod(v).memory_experiment(NoiselessModel(inds), l, det, **kw).flattened()
    out, order, flip = stim.Circuit(), [], []
    for ins in c:
        if ins.name in MEAS:
            for t in ins.targets_copy():
                f = int(rng.random() < .3)
                out.append(ins.name, [t], [1] if f else [])
                order.append(inv[t.value])
                flip.append(f)
        else:
            out.append(ins)
    ref = c.reference_sample()
    rels, ideal, k = [], [], 0
    for ins in c:
        if ins.name in MEAS:
            k += len(ins.targets_copy())
        elif ins.name in ("DETECTOR", "OBSERVABLE_INCLUDE"):
            at = [k + t.value for t in ins.targets_copy()]
            if at:
                p = sum(int(ref[i]) for i in at) % 2
                ideal.append(dict(at=[i + 1 for i in at], parity=p))
                rels.append(dict(at=[i + 1 for i in at], parity=(p + sum(flip[i] for i in at)) % 2))
    return out, order, [], [], [], [], rels, ideal


def one(arg):
    i, seed = arg

    def f():
        from surface_sim.util import sample_memory_experiment

        rng = random.Random(seed)
        v, l = some_layout(rng)
        rounds = rng.choice([0, 1, 1, 2, 3, 4, 7]) if rng.random() > .06 else rng.randint(8, 25)
        if rng.random() < .6:
            x = artificial(rng, l, rounds)
        else:
            rounds = max(rounds, 1)
            x = real(rng, v, l, rounds)
        c, order, var, par, ideal, defs, rels, irels = x
        num = {q: k + 1 for k, q in enumerate(l.get_qubits())}
        anc, data = l.get_qubits(role="anc"), l.get_qubits(role="data")
        shots = rng.choice([1, 1, 2, 3, 25])
        if c.num_measurements < 30 and rng.random() < .2:
            shots = rng.choice([130, 300, 1100])
        s = rng.choice([None, 0, 1, rng.randint(0, 2 ** 31)])
        asked = rounds
        if rng.random() < .1:
            asked = rng.choice([r for r in (rounds - 1, rounds + 1, rounds + 3) if r >= 0])
        case = dict(id=i, order=[num[q] for q in order], var=var, par=par, ideal_par=ideal, rels=rels, ideal_rels=irels,
                    ancs=[num[q] for q in anc], datas=[num[q] for q in data], rounds=rounds, shots=shots, seed=-1 if s is None else s,
                    wrong=asked != rounds, raised=False, **{"def": defs})
        before = (str(c), str(l.to_dict()))
        kw = dict(num_shots=shots, num_rounds=asked, seed=s)
        if s is None and rng.random() < .5:
            del kw["seed"]
        try:
            ds = sample_memory_experiment(l, c, **kw)
        except (Machinery, CaseTimeout, KeyboardInterrupt):
            raise
        except Exception as e:
            return dict(case, raised=True), describe_exc(e)
        if case["wrong"]:
            return case, None
        lab = dict(shot=ds.shot.values.tolist(), round=ds.qec_round.values.tolist(), anc=[num.get(q, 0) for q in ds.anc_qubit.values.tolist()],
                   data=[num.get(q, 0) for q in ds.data_qubit.values.tolist()], seed=-1 if ds.seed.item() is None else ds.seed.item())
        full = dict(shot=list(range(shots)), round=list(range(1, rounds + 1)), anc=case["ancs"], data=case["datas"], seed=case["seed"])
        case.update(labels=lab, dims={k: list(ds[k].dims) for k in ("anc_meas", "data_meas", "ideal_anc_meas", "ideal_data_meas")})
        case["changed"] = before != (str(c), str(l.to_dict()))
        bit = [0, 1]
        case["bits"] = all(v in bit for k in ds.data_vars for v in ds[k].values.ravel().tolist())
        case["out"], case["ideal"], case["again"], case["fresh"], other = [], {}, True, True, ds
        if lab == full and case["bits"]:
            # by label
            def read(a, d):
                return dict(anc=[[int(a.sel(qec_round=r, anc_qubit=q)) for q in anc] for r in range(1, rounds + 1)],
                            data=[int(d.sel(data_qubit=q)) for q in data])
            if shots < 30:
                case["out"] = [read(ds.anc_meas.sel(shot=k), ds.data_meas.sel(shot=k)) for k in range(shots)]
            else:  # the labels are those in order
                va = ds.anc_meas.transpose("shot", "qec_round", "anc_qubit").values.astype(int).tolist()
                vd = ds.data_meas.transpose("shot", "data_qubit").values.astype(int).tolist()
                case["out"] = [dict(anc=x, data=y) for x, y in zip(va, vd)]
            case["ideal"] = read(ds.ideal_anc_meas, ds.ideal_data_meas)
            other = sample_memory_experiment(l, c, **dict(kw, **({} if s is None else dict(seed=s + 1))))
            if s is not None:
                case["again"] = ds.equals(sample_memory_experiment(l, c, **kw))
        case["many"] = shots >= 20 and len(defs) >= 4
        if case["many"] and case["out"]:
            case["fresh"] = not ds.anc_meas.equals(other.anc_meas) or not ds.data_meas.equals(other.data_meas)
        return case, None

    return call(f, 90)


def body(c):
    T = c.thorough
    from concurrent.futures import ThreadPoolExecutor
    jobs = [(k, c.seed * 8009 + k) for k in range(4000 if T else 400)]
    with ThreadPoolExecutor(6) as ex:
        sane = ex.submit(run_tlc, "DatasetModel", "DatasetModel_none.cfg", None, 2)
        odd = [(x, ex.submit(run_tlc, "DatasetModel", f"DatasetModel_{x}.cfg", None, 1, 300, "2g", (), False)) for x in FAULTS]
        res = pmap(one, jobs, chunksize=4)
        r = sane.result()
        for x, fut in odd:
            if not fut.result().violated:
                raise Machinery(f"DatasetModel.tla does not notice the fault {x}")
    c.stats(dict(states=r.distinct, transitions=r.generated, traces=0))
    c.count("model_states", r.distinct)
    cases, errs = [], {}
    for j, (x, err) in zip(jobs, res):
        if err:
            c.violation("raised", dict(seed=j[1], error=err))
        else:
            cases.append(x[0])
            errs[j[0]] = x[1]
    for k in range(0, len(cases), 500):
        part = cases[k:k + 500]
        bad, st = validate("DatasetTrace", part, timeout=3400)
        c.stats(st)
        for x in part:
            if x["id"] in bad:
                c.violation(bad[x["id"]][0], dict(error=errs[x["id"]], rounds=x["rounds"], shots=x["shots"], ancs=len(x["ancs"]), datas=len(x["datas"]),
                                                  seed=jobs[x["id"]][1]))
    c.count("datasets", len(cases))
    c.count("outcomes_judged", sum(len(x["order"]) * x["shots"] for x in cases))
    c.count("with_chosen_outcomes", sum(bool(x["def"]) for x in cases))
    c.count("real_experiments", sum(bool(x["rels"]) for x in cases))
    c.sample(dict(rounds=cases[0]["rounds"], shots=cases[0]["shots"], order=cases[0]["order"]))
    c.assumptions += ["an experiment measures all ancillas in every round and the data qubits at the end, each in the order of the layout, as the library's memory experiments do",
                      "at least one shot"]


if __name__ == "__main__":
    import sys
    sys.exit(main("C13", body))
