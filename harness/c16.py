"""C16: what is derived from a layout agrees with its graph and coordinates."""
import random

import zoo
from vlib import CaseTimeout, Machinery, call, describe_exc, main, pmap, run_tlc, validate

CARD = dict(north=(0, 1), south=(0, -1), east=(1, 0), west=(-1, 0))
DIAG = dict(north_east=(1, 1), south_west=(-1, -1), north_west=(1, -1), south_east=(-1, 1))
SCALE = 4
LARGE = .08
KEYS = ["role", "stab_type", "freq_group", "colour"]


def scaled(v):
    if v * SCALE != int(v * SCALE):
        raise ValueError(f"coordinate {v}")
    return int(v * SCALE)


class Given:
    """A layout: the dictionary given to the real code, and the same for the specification."""

    def __init__(self, qubits, extra=None, flat=False):
        # qubits: list of dict(qubit, attrs..., coords?, ind?, neighbors)
        self.dict = dict(layout=qubits, **(extra or {}))
        self.labels = [q["qubit"] for q in qubits]
        self.num = {l: k + 1 for k, l in enumerate(self.labels)}
        self.attr = [[[k, q[k]] for k in KEYS if q.get(k) is not None] for q in qubits]
        self.every = [k for k in KEYS if all(k in q for q in qubits)]
        self.edges = [[self.num[q["qubit"]], d, self.num[p]] for q in qubits for d, p in q["neighbors"].items() if p is not None]
        self.ind = [q.get("ind", k) for k, q in enumerate(qubits)]
        self.coords = all(q.get("coords") is not None for q in qubits)
        self.xy = [[scaled(v) for v in q["coords"]] if q.get("coords") is not None else [0, 0] for q in qubits]
        # symmetric; embeds in the plane with all directions of one kind and is connected
        self.sym = {(a, b) for a, _, b in self.edges} == {(b, a) for a, _, b in self.edges}
        self.flat = bool(flat) and self.connected()

    def connected(self):
        seen, new = set(), {1}
        while new:
            seen |= new
            new = {b for a, _, b in self.edges if a in seen} - seen
        return len(seen) == len(self.labels)

    def spec(self):
        return dict(n=len(self.labels), attr=self.attr, edges=self.edges, ind=self.ind, xy=self.xy)


def generated(rng):
    fam = rng.choice(["rot", "unrot"])
    parts = []
    did = 1
    for j in range(rng.choice([1, 1, 2])):
        dz, dx = rng.choice([(2, 2), (3, 2), (2, 3), (3, 3), (1, 3)])
        if rng.random() < LARGE:
            dz, dx = rng.choice([(11, 2), (2, 11), (5, 6), (4, 7)])
        l = zoo.layout(fam, dz, dx, label=f"L{j}", point=(rng.choice([1, -2.5, 4]) + 60 * j, rng.choice([1, 0, 7.25])), did=did, zid=did,
                       xid=did, ind=10 * did)
        did += 140
        parts.append(l)
    l = parts[0] if len(parts) == 1 else zoo.union(parts)
    return Given(l.to_dict()["layout"], {k: v for k, v in l.to_dict().items() if k != "layout"}, flat=True)


def finish(rng, qubits, pos=None, flat=False):
    """Roles, indices, coordinates of a random layout."""
    rng.shuffle(qubits)
    inds = rng.sample(range(100 if len(qubits) < 50 else 400), len(qubits)) if rng.random() < .7 else None
    where = rng.choice(["none", "random", "pos"]) if pos else rng.choice(["none", "random", "random"])
    spots = rng.sample([(a / 2, b / 4) for a in range(-9, 9) for b in range(-6, 12)], len(qubits))
    few = rng.sample([(a, b) for a in range(5) for b in range(5)], min(25, len(qubits)))
    spots = few if len(few) == len(qubits) and rng.random() < .6 else spots
    for k, q in enumerate(qubits):
        q["role"] = rng.choice(["data", "anc", "anc"])
        q["stab_type"] = rng.choice(["x_type", "z_type"]) if q["role"] == "anc" else None
        if rng.random() < .9:
            q["freq_group"] = rng.choice(["low", "mid", "high"])
        if inds:
            q["ind"] = inds[k]
        if where == "random":
            q["coords"] = list(spots[k])
        elif where == "pos":
            q["coords"] = [pos[q["qubit"]][0] * 1.5 - 4, pos[q["qubit"]][1] * 2 + .25]
    return Given(qubits, flat=flat)


def grid(rng):
    vec = rng.choice([CARD, DIAG])
    nx, ny = rng.randint(2, 4), rng.randint(2, 4)
    if rng.random() < LARGE:
        nx, ny = rng.randint(5, 11), rng.randint(2, 7)
    sites = [(x, y) for x in range(nx) for y in range(ny) if vec is CARD or (x + y) % 2 == 0]
    lab = {s: f"q{k}" for k, s in enumerate(rng.sample(sites, len(sites)))}
    names = {s: dict(qubit=lab[s], neighbors={}) for s in sites}
    inv = {v: d for d, v in vec.items()}
    for s in sites:
        for d, v in vec.items():
            t = (s[0] + v[0], s[1] + v[1])
            if t in names and s < t and rng.random() < .8:
                names[s]["neighbors"][d] = lab[t]
                names[t]["neighbors"][inv[(-v[0], -v[1])]] = lab[s]
    for q in names.values():
        for d in vec:
            if d not in q["neighbors"] and rng.random() < .3:
                q["neighbors"][d] = None
    return finish(rng, list(names.values()), {lab[s]: s for s in sites}, True)


def digraph(rng):
    n = rng.randint(2, 9) if rng.random() > LARGE else rng.randint(10, 30)
    labs = [f"n{k}" for k in rng.sample(range(50), n)]
    qubits = []
    for l in labs:
        dirs = rng.sample(list(CARD) + list(DIAG), rng.randint(0, min(4, n - 1)))
        to = rng.sample([x for x in labs if x != l], len(dirs))
        qubits.append(dict(qubit=l, neighbors=dict(zip(dirs, to))))
    return finish(rng, qubits)


def chain(rng):
    qubits = []
    for part in range(rng.randint(1, 3)):
        n = rng.randint(1, 7) if rng.random() > LARGE else rng.randint(11, 45)
        labs = [f"c{part}.{k}" for k in rng.sample(range(50), n)]
        for k, l in enumerate(labs):
            nb = {}
            if k:
                nb["west"] = labs[k - 1]
            if k < n - 1:
                nb["east"] = labs[k + 1]
            qubits.append(dict(qubit=l, neighbors=nb))
    cross = rng.random() < .2 and len(qubits) > 4
    if cross:
        a, b = rng.sample(qubits, 2)
        cross = b["qubit"] not in a["neighbors"].values()  # the graph has at most one edge per pair
    if cross:
        a["neighbors"]["north"], b["neighbors"]["south"] = b["qubit"], a["qubit"]
    return finish(rng, qubits, None, not cross)


def retouched(rng, l):
    """The same layout, with the numbers of its coordinates written in another way."""
    from surface_sim.layouts import Layout

    how = rng.choice(["same", "same", "float", "int", "tuple"])
    if how == "same":
        return l
    d = l.to_dict()
    for q in d["layout"]:
        xy = q["coords"]
        q["coords"] = (tuple(xy) if how == "tuple" else [float(v) for v in xy] if how == "float"
                       else [int(v) if v == int(v) else v for v in xy])
    return Layout(d)


def share_one(rng, lays):
    """Let two layouts share one thing of one qubit (or one logical label)."""
    from surface_sim.layouts import Layout

    a, b = rng.sample(range(len(lays)), 2)
    da, db = lays[a].to_dict(), lays[b].to_dict()
    x, y = rng.choice(da["layout"]), rng.choice(db["layout"])
    k = rng.choice(["coords", "ind", "logical"])
    if k == "logical":
        new, (old,) = da["logical_qubit_labels"][0], db["logical_qubit_labels"]
        for t in (db["log_z"], db["log_x"]):
            t[new] = list(t[old])
        db["logical_qubit_labels"] = rng.sample([old, new], 2) if new != old else [old]
    elif k == "ind" and x[k] not in [q[k] for q in db["layout"]]:
        y[k] = x[k]
    elif k == "coords":
        y[k] = list(x[k])
    return [Layout(db) if j == b else l for j, l in enumerate(lays)]


def overlap_set(rng):
    """Layouts for joint use, some of which share something."""
    n = rng.randint(1, 4) if rng.random() > LARGE else rng.randint(6, 12)
    fam = rng.choice(["rot", "unrot"])
    kw, did, ind, y = [], 1, 0, 0
    for j in range(n):
        kw.append(dict(label=f"L{j}", point=(1 + y, 1 - y), did=did, zid=did, xid=did, ind=ind))
        did, ind, y = did + 20, ind + 60, y + 20
    dims = [rng.choice([(2, 2), (3, 2), (3, 3)]) for _ in range(n)]
    if n > 1:
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            a, b = sorted(rng.sample(range(n), 2))
            what = rng.choice(["label", "point", "ids", "one", "ind"])
            if what == "label":
                kw[b]["label"] = kw[a]["label"]
            elif what == "point":
                p = kw[a]["point"]
                kw[b]["point"] = (p[0] + rng.choice([0, 2, 4, 1, 8]), p[1] + rng.choice([0, 2, -2]))
            elif what == "ids":
                kw[b]["did"] = kw[a]["did"] + rng.choice([0, 2, 3, 5, 9, 13])
            elif what == "one":
                k = rng.choice(["zid", "xid"])
                kw[b][k] = kw[a][k] + rng.choice([0, 1, 2, 4])
            else:
                kw[b]["ind"] = kw[a]["ind"] + rng.choice([1, 5, 7, 17, 25])
    lays = [zoo.layout(fam if rng.random() < .8 else rng.choice(["rot", "unrot"]), *d, **k) for d, k in zip(dims, kw)]
    lays = [retouched(rng, l) for l in lays]
    if n > 1 and rng.random() < .4:
        lays = share_one(rng, lays)
    rng.shuffle(lays)
    ls = []
    for l in lays:
        d = l.to_dict()
        ls.append(dict(lab=[q["qubit"] for q in d["layout"]], ind=[q["ind"] for q in d["layout"]],
                       xy=[[scaled(v) for v in q["coords"]] for q in d["layout"]], log=d["logical_qubit_labels"]))
    return lays, ls


def history(arg):
    i, seed, length = arg

    def f():
        from surface_sim.detectors import get_support_from_adj_matrix
        from surface_sim.layouts import Layout, check_overlap_layouts, set_coords
        from surface_sim.layouts.util import index_chain

        rng = random.Random(seed)
        g = rng.choice([generated, grid, grid, digraph, chain])(rng)
        l = Layout(g.dict)
        num, labs, n = g.num, g.labels, len(g.labels)
        ops = []
        g0 = g.spec()
        roles = [dict(a).get("role") for a in g.attr]
        every = list(g.every)
        fixed = g.coords

        def ask(op, fn, out=None):
            try:
                r = fn()
                op["raised"] = False
                if out:
                    out(op, r)
            except (Machinery, CaseTimeout, KeyboardInterrupt):
                raise
            except Exception as e:
                op.update(raised=True, error=describe_exc(e))
            ops.append(op)

        def keep(k, fn):
            return lambda o, r: o.update({k: fn(r)})

        def sparse(m, a, b):
            la, lb = m[a].values.tolist(), m[b].values.tolist()
            v = m.transpose(a, b).values
            return [[num[la[x]], num[lb[y]], int(v[x, y])] for x in range(len(la)) for y in range(len(lb)) if v[x, y]]

        for _ in range(length):
            qs = rng.sample(labs, rng.randint(1, n))
            ids = [num[q] for q in qs]
            box = rng.choice([list, tuple])(qs)
            w = rng.randrange(19)
            q = qs[0]
            if w == 0 and every:
                conds = rng.sample(every, rng.randint(1, len(every)))
                conds = {k: rng.choice(dict(role=["data", "anc"], stab_type=["x_type", "z_type"], freq_group=["low", "mid", "high"],
                                            colour=["red", "blue"])[k]) for k in conds}
                ask(dict(op="qubits", conds=[[k, v] for k, v in conds.items()]), lambda: l.get_qubits(**conds),
                    keep("out", lambda r: [num[x] for x in r]))
            elif w == 1:
                ask(dict(op="qubits", conds=[]), l.get_qubits, keep("out", lambda r: [num[x] for x in r]))
            elif w == 2:
                k = rng.choice(KEYS + ["nothing"])
                ask(dict(op="param", a=k, q=num[q]), lambda: l.param(k, q), keep("out", lambda r: "" if r is None else r))
            elif w == 3:
                k = rng.choice(["freq_group", "colour", "colour", "stab_type"])
                v = rng.choice(dict(stab_type=["x_type", "z_type"], freq_group=["low", "mid", "high"], colour=["red", "blue"])[k])
                if k == "stab_type" and roles[num[q] - 1] != "anc":
                    continue
                whom = labs if k == "colour" and rng.random() < .5 else [q]
                for x in whom:
                    ask(dict(op="set", a=k, q=num[x], v=v), lambda: l.set_param(k, x, v))
                if len(whom) == n and k not in every:
                    every.append(k)
            elif w == 4 and fixed:
                used = [tuple(c) for c in l.qubit_coords().values()]
                v = [rng.choice([0, 1, 2.5, 7]) + rng.randint(0, 3), rng.choice([0, -1, .25]) + rng.randint(0, 3)]
                if tuple(v) not in used:
                    ask(dict(op="setxy", q=num[q], v=[scaled(x) for x in v]), lambda: l.set_param("coords", q, v))
            elif w in (5, 6):
                d = rng.choice([None, None] + list(CARD) + list(DIAG))
                kw = {} if d is None else dict(direction=d)
                if w == 5:
                    ask(dict(op="pairs", qs=ids, d=d or ""), lambda: l.get_neighbors(box, as_pairs=True, **kw),
                        keep("out", lambda r: [[num[a], num[b]] for a, b in r]))
                else:
                    ask(dict(op="ends", qs=ids, d=d or ""), lambda: l.get_neighbors(box, **kw), keep("out", lambda r: [num[a] for a in r]))
            elif w == 7:
                ask(dict(op="adj"), l.adjacency_matrix, keep("out", lambda m: sparse(m, "from_qubit", "to_qubit")))
            elif w == 8 and set(roles) == {"data", "anc"} and "stab_type" in every:
                t = rng.choice(["x_type", "z_type"])
                ask(dict(op="proj", t=t), lambda: l.projection_matrix(t), lambda o, m: o.update(
                    out=sparse(m, "data_qubit", "anc_qubit"), data=[num[x] for x in m.data_qubit.values.tolist()],
                    anc=[num[x] for x in m.anc_qubit.values.tolist()]))
            elif w == 9:
                ask(dict(op="support", qs=ids), lambda: get_support_from_adj_matrix(l.adjacency_matrix(), box),
                    keep("out", lambda r: [[num[x] for x in r[a]] for a in qs]))
            elif w in (10, 11) and fixed and "anc" in roles:
                ask(dict(op="expand"), l.expansion_matrix, lambda o, m: o.update(
                    shape=list(m.shape[2:]), out=[[num[a], int(x), int(y)] for k, a in enumerate(m.anc_qubit.values.tolist())
                                                  for x, y in zip(*m.values[k, 0].nonzero())]))
            elif w == 12:
                ask(dict(op="inds", qs=ids), lambda: l.get_inds(box), keep("out", list))
            elif w == 13:
                ask(dict(op="allinds"), l.qubit_inds, keep("out", lambda r: [[num[k], v] for k, v in r.items()]))
            elif w == 14:
                ask(dict(op="minmax"), lambda: [l.get_min_ind(), l.get_max_ind()], keep("out", list))
            elif w == 15 and fixed:
                what = rng.choice(["coords", "allcoords", "anccoords"])
                row = lambda r: [[num[k], [scaled(x) for x in v]] for k, v in r.items()]
                if what == "coords":
                    ask(dict(op="coords", qs=ids), lambda: l.get_coords(box), keep("out", lambda r: [[scaled(x) for x in v] for v in r]))
                else:
                    ask(dict(op=what), l.qubit_coords if what == "allcoords" else l.anc_coords, keep("out", row))
            elif w == 16 and g.flat and rng.random() < .5:
                over = rng.random() < .6
                ask(dict(op="setcoords", override=over, has=fixed), lambda: set_coords(l, override=over))
                if not ops[-1]["raised"]:
                    fixed, got = True, l.qubit_coords()
                    ops[-1]["xy"] = [[int(v) for v in got[x]] for x in labs if x in got]
                    for k, x in enumerate(labs):  # in the units of the other coordinates
                        ops.append(dict(op="setxy", q=k + 1, v=[scaled(v) for v in got[x]], raised=False))
            elif w == 17 and g.sym:
                q0 = rng.choice([q, q, q, "nobody"])
                ask(dict(op="chain", q=num.get(q0, 0)), lambda: index_chain(l, q0))
                if not ops[-1]["raised"]:
                    ops[-1]["idx"] = [-1 if l.param("chain_ind", x) is None else l.param("chain_ind", x) for x in labs]
            elif w == 18:
                lays, ls = overlap_set(rng)
                ask(dict(op="overlap", ls=ls), lambda: check_overlap_layouts(*lays))
        return dict(id=i, ops=ops, **g0), g.dict

    return call(f, 60)


def slim(case):
    return dict(case, ops=[{k: v for k, v in o.items() if k != "error"} for o in case["ops"]])


def body(c):
    T = c.thorough
    r = run_tlc("LayoutGraphModel", "LayoutGraphModelDeep.cfg" if T else "LayoutGraphModel.cfg", workers=8, timeout=3000)
    c.stats(dict(states=r.distinct, transitions=r.generated, traces=0))
    c.count("model_states", r.distinct)
    jobs = [(k, c.seed * 6007 + k, 60 if T else 40) for k in range(4000 if T else 500)]
    cases, src = [], {}
    for j, (x, err) in zip(jobs, pmap(history, jobs, chunksize=10)):
        if err:
            c.violation("raised", dict(seed=j[1], error=err))
        else:
            cases.append(slim(x[0]))
            src[j[0]] = x
    for k in range(0, len(cases), 1000):
        bad, st = validate("LayoutGraphTrace", cases[k:k + 1000], timeout=3400)
        c.stats(st)
        for i, v in bad.items():
            ops = src[i][0]["ops"]
            c.violation(v[1], dict(call=ops[v[0] - 1], before=[o["op"] for o in ops[:v[0] - 1]][-8:], layout=src[i][1], seed=jobs[i][1]))
    c.count("layouts", len(cases))
    c.count("answers_judged", sum(o["op"] not in ("set", "setxy", "noop") for x in cases for o in x["ops"]))
    for op in ("expand", "proj", "setcoords", "chain", "overlap"):
        c.count("answers_" + op, sum(o["op"] == op for x in cases for o in x["ops"]))
    c.sample([o["op"] for o in cases[0]["ops"]])
    c.assumptions += ["set_coords is used on connected graphs whose directions are all cardinal or all diagonal",
                      "chains do not close into a ring", "get_qubits is asked for parameters that all the qubits have"]


if __name__ == "__main__":
    import sys
    sys.exit(main("C16", body))
