"""C05: every generated layout is a valid surface code of the requested size."""
import random

import zoo
from vlib import call, main, pmap, run_tlc, validate

DIRS = [a + b for a in ("north", "south") for b in ("_east", "_west", "")] + ["east", "west"]
SCALE = 4  # coordinates are multiples of 1/4


def scaled(x):
    v = x * SCALE
    if v != int(v):
        raise ValueError(f"coordinate {x}")
    return int(v)


def describe(l):
    """What a layout answers, for specs/SurfaceCodeTrace.tla."""
    qs = l.get_qubits()
    num = {q: k + 1 for k, q in enumerate(qs)}
    typ = []
    for q in qs:
        role, st = l.param("role", q), l.param("stab_type", q)
        typ.append("D" if role == "data" else {"x_type": "X", "z_type": "Z"}[st])
    nb, nnb = [], []
    for q in qs:
        nb.append([[d, num[p]] for d in DIRS for p in l.get_neighbors([q], direction=d)])
        nnb.append(len(l.get_neighbors([q])))
    log = l.get_logical_qubits()
    o = l.interaction_order
    return dict(n=len(qs), typ=typ, lab=qs, ind=l.get_inds(qs), xy=[[scaled(x) for x in c] for c in l.get_coords(qs)], nb=nb, nnb=nnb,
                order=dict(X=list(o["x_type"]), Z=list(o["z_type"])), logx=[num[q] for q in l.log_x[log[0]]],
                logz=[num[q] for q in l.log_z[log[0]]],
                say=dict(logical=log, dx=l.distance_x, dz=l.distance_z, d=l.distance if l.distance is not None else -1))


def judge(arg):
    i, req, form = arg

    def f():
        import surface_sim.layouts as L

        r = dict(req)
        if form == "square":
            g = {"rot": L.rot_surface_code, "unrot": L.unrot_surface_code}[r["fam"]]
            size = dict(distance=r["dz"])
        else:
            g = {"rot": L.rot_surface_code_rectangle, "unrot": L.unrot_surface_code_rectangle}[r["fam"]]
            size = dict(distance_z=r["dz"], distance_x=r["dx"])
        kw = dict(logical_qubit_label=r["label"], init_point=tuple(r["point"]), init_data_qubit_id=r["did"],
                  init_zanc_qubit_id=r["zid"], init_xanc_qubit_id=r["xid"], init_ind=r["ind"])
        if form == "default":
            kw = {}
        l = g(**size, **kw)
        r["point"] = [scaled(x) for x in r["point"]]
        return dict(id=i, req=r, **describe(l))

    return call(f, 120)


def body(c):
    rng = random.Random(c.seed + 5)
    T = c.thorough
    r = run_tlc("SurfaceCodeModel", "SurfaceCodeModelDeep.cfg" if T else "SurfaceCodeModel.cfg", workers=8, timeout=3000)
    c.stats(dict(states=r.distinct, transitions=r.generated, traces=0))
    c.count("model_states", r.distinct)
    top = 10 if T else 6
    sizes = [(a, b) for a in range(1, top + 1) for b in range(1, top + 1)]
    sizes += [(7, 7), (9, 9), (8, 11), (11, 8), (2, 13), (13, 2)] + ([(11, 11), (12, 12), (13, 13), (15, 4), (4, 17)] if T else [])
    jobs = []
    for fam in ("rot", "unrot"):
        for dz, dx in sizes:
            for k in range(4 if T else 1 if dz + dx > 13 else 2):
                req = dict(fam=fam, dz=dz, dx=dx, label=rng.choice(["L0", "L7", "q"]), did=rng.choice([1, 0, 5, 100]),
                           zid=rng.choice([1, 0, 3, 40]), xid=rng.choice([1, 0, 7, 50]), ind=rng.choice([0, 1, 6, 1000]),
                           point=[rng.choice([1, 0, -3, 2.5, 10.25, -7.75]), rng.choice([1, 0, -3, 2.5, 10.25])])
                form = "rectangle"
                if k == 0 and rng.random() < .3:
                    form = "default"
                    req.update(label="L0", did=1, zid=1, xid=1, ind=0, point=[1, 1] if fam == "rot" else [0, 0])
                elif dz == dx and rng.random() < .5:
                    form = "square"
                jobs.append((len(jobs), req, form))
    cases = []
    for j, (x, err) in zip(jobs, pmap(judge, jobs)):
        if err:
            c.violation("raised", dict(request=j[1], form=j[2], error=err))
        else:
            cases.append(x)
    bad, st = validate("SurfaceCodeTrace", cases, timeout=3400)
    c.stats(st)
    for i, v in bad.items():
        c.violation(v[1], dict(request=jobs[i][1], form=jobs[i][2]))
    c.count("layouts", len(cases))
    c.count("stabilizers_judged", sum(t != "D" for x in cases for t in x["typ"]))
    c.sample(jobs[0][1])
    c.assumptions += ["the code distance is the shortest walk in the matching graph of the checks, exact because every data qubit is in at"
                      " most two checks of a type (also judged)", "coordinates are multiples of 1/4"]


if __name__ == "__main__":
    import sys
    sys.exit(main("C05", body))
