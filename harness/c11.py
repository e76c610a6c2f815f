"""C11: layouts and setups survive storage, and what is made of them is independent."""
import copy
import json
import random
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

import zoo
from vlib import CaseTimeout, Machinery, call, describe_exc, main, pmap, run_tlc, validate

FAULTS = ["load", "dump", "copy", "forget", "unvar"]
DIRS = ["north", "south", "east", "west", "north_east", "north_west", "south_east", "south_west"]
TOP = [("name", ""), ("code", ""), ("description", None), ("distance", -1), ("distance_z", -1), ("distance_x", -1),
       ("interaction_order", {})]
PARAMS = ["sq_error_prob", "x_error_prob", "idle_error_prob", "tq_error_prob", "cz_error_prob", "T1", "assign_error_prob", "biased_pauli"]
VARS = ["prob", "u", "T1", "sq_error_prob", "v w"]
TUPLES = [(), ("D1",), ("Z1",), ("D1", "Z1"), ("Z1", "D1")]
GATES = ["X", "CZ", "M"]


def js(v):
    return ["json", json.dumps(v, sort_keys=True, default=lambda x: f"odd:{type(x).__name__}:{x!r}")]


# ---- everything there is, as [key, value] with the defaults left out ----

def layout_dict_content(d):
    c = {}
    for k, default in TOP:
        v = d.get(k, default)
        if v is not None and v != default:
            c[(k,)] = js(v)
    c[("labels",)] = js(d.get("logical_qubit_labels", []))
    for k in ("log_z", "log_x"):
        for l, v in d.get(k, {}).items():
            c[(k, l)] = js(v)
    qs = [q["qubit"] for q in d["layout"]]
    c[("qubits",)] = js(qs)
    numbered = any(q.get("ind") is not None for q in d["layout"])
    for n, q in enumerate(d["layout"]):
        c[("ind", q["qubit"])] = js(q.get("ind") if numbered else n)
        for k, v in q.items():
            if k not in ("qubit", "neighbors") and v is not None:
                c[("attr", q["qubit"], k)] = js(v)
        for k, v in q["neighbors"].items():
            if v is not None:
                c[("nbr", q["qubit"], k)] = js(v)
    return c


def layout_answers(l, names):
    c = {}
    for k, default in TOP:
        v = getattr(l, k)
        if v is not None and v != default:
            c[(k,)] = js(v)
    c[("labels",)] = js(l.get_logical_qubits())
    for k in ("log_z", "log_x"):
        for x, v in getattr(l, k).items():
            c[(k, x)] = js(v)
    qs = l.get_qubits()
    c[("qubits",)] = js(qs)
    inds = l.qubit_inds()
    for q, i in zip(qs, l.get_inds(qs)):
        c[("ind", q)] = js(i)
        if inds[q] != i:
            c[("ind", q, "differs")] = js(inds[q])
        for k in names:
            v = l.param(k, q)
            if v is not None:
                c[("attr", q, k)] = js(v)
        pairs = l.get_neighbors([q], as_pairs=True)
        for d in DIRS:
            for a, b in l.get_neighbors([q], direction=d, as_pairs=True):
                c[("nbr", a, d)] = js(b)
                pairs.remove((a, b))
        if pairs:
            c[("nbr", q, "other")] = js(pairs)
    return c


def value(v):
    return ["var", v] if isinstance(v, str) else ["num", repr(v)]


def setup_dict_content(d):
    c = {}
    for k in ("name", "description"):
        if d.get(k) is not None:
            c[(k,)] = js(d[k])
    for g, v in (d.get("gate_durations") or {}).items():
        c[("dur", g)] = value(v)
    for e in d["setup"]:
        e = dict(e)
        q = e.pop("qubit", None)
        q = (q,) if q is not None else tuple(e.pop("qubits", ()))
        for p, v in e.items():
            c[("per", p, *q) if q else ("glob", p)] = value(v)
    return c


def setup_answers(s):
    c = {}
    for k in ("name", "description"):
        if getattr(s, k) is not None:
            c[(k,)] = js(getattr(s, k))
    for p in PARAMS:
        for q in TUPLES:
            try:
                c[("param", p, *q)] = value(s.param(p, *q))
            except (KeyError, ValueError):
                c[("param", p, *q)] = ["fails"]
    for k, v in c.items():
        if k[0] == "param" and v[0] == "var":  # values of free parameters may be words
            c[k] = ["num", repr(v[1])]
    free = s.free_params
    if len(set(free)) != len(free):
        c[("free twice",)] = js(free)
    for x in VARS + [y for y in free if y not in VARS]:
        c[("free", x)] = ["yes" if x in free else "no"]
    for g in GATES:
        try:
            c[("dur", g)] = value(s.gate_duration(g))
        except ValueError:
            c[("dur", g)] = ["fails"]
    return c


# ---- histories ----

class History:
    def __init__(self, seed, folder):
        self.rng = random.Random(seed)
        self.dir = Path(folder)
        self.things, self.kinds, self.look, self.ops = [], [], [], []
        self.files = {}  # id -> path
        self.names = set()

    def answers(self, i):
        t, k = self.things[i], self.kinds[i]
        if i in self.files:
            import yaml
            t = yaml.safe_load(self.files[i].read_text())
        if k == "layout":
            return layout_answers(t, sorted(self.names))
        if k == "setup":
            return setup_answers(t)
        return layout_dict_content(t) if k == "layoutdict" else setup_dict_content(t)

    def learn(self, content):
        self.names |= {k[2] for k in content if k[0] == "attr"}

    def op(self, op, fn, kind=None, thing=None):
        """Do fn, ask everything; kind: of the new thing made by fn."""
        op.update(raised=False, diff=[])
        self.ops.append(op)
        try:
            r = fn()
        except (Machinery, CaseTimeout, KeyboardInterrupt):
            raise
        except Exception as e:
            op.update(raised=True, error=describe_exc(e))
            return False
        if kind:
            self.things.append(r)
            self.kinds.append(kind)
            if isinstance(r, Path):
                self.files[len(self.things) - 1] = r
        if op["op"] == "build":
            op["out"] = r
        for i in range(len(self.things)):
            new = self.answers(i)
            if i == len(self.look):
                self.look.append(new)
                op["new"] = [[list(k), v] for k, v in new.items()]
                continue
            old = self.look[i]
            for k in {**old, **new}:
                if old.get(k) != new.get(k):
                    op["diff"].append([i + 1, list(k), new.get(k, ["none"])])
            self.look[i] = new
        return True

    def some(self, *kinds, files=None):
        l = [i for i, k in enumerate(self.kinds) if k in kinds and files in (None, i in self.files)]
        return self.rng.choice(l) if l else None

    # -- things that come from outside --
    def new_layout(self):
        r = self.rng
        if r.random() < .6:
            fam = r.choice(["rot", "unrot"])
            names = r.choice([["L0", "L1", "L2"], ["L2", "L0", "L1"], ["q", "B", "a1"], ["10", "9", "L"]])
            parts = [zoo.layout(fam, *r.choice([(2, 2), (3, 2), (2, 3), (3, 3)]), label=names[j], point=(1.5 + 20 * j, 1), did=1 + 30 * j,
                                zid=1 + 30 * j, xid=1 + 30 * j, ind=40 * j + r.randint(0, 9)) for j in range(r.choice([1, 1, 2, 3]))]
            d = (parts[0] if len(parts) == 1 else zoo.union(parts)).to_dict()
        else:
            n = r.randint(1, 6)
            labs = [f"D{k}" for k in r.sample(range(1, 30), n)]
            qs = []
            num = r.random() < .6
            for k, l in enumerate(labs):
                ds = r.sample(DIRS, r.randint(0, min(n - 1, 3)))
                nb = dict(zip(ds, r.sample([x for x in labs if x != l], len(ds))))
                q = dict(qubit=l, neighbors=nb, role=r.choice(["data", "anc"]))
                if num:
                    q["ind"] = 7 * k + r.randint(0, 6)
                if r.random() < .7:
                    q["coords"] = [r.randint(0, 9), r.random()]
                if r.random() < .3:
                    q["notes"] = dict(a=[1, dict(b=[l])], c=None)
                qs.append(q)
            d = dict(layout=qs)
            for k, v in dict(name="n", code="c", description="text", distance=3, distance_z=2, distance_x=4).items():
                if r.random() < .5:
                    d[k] = v
            if r.random() < .6:
                ls = r.sample(["L0", "L1", "M", "a", "7"], r.randint(1, 3))
                d.update(logical_qubit_labels=ls, log_z={l: r.sample(labs, r.randint(1, n)) for l in ls},
                         log_x={l: r.sample(labs, r.randint(1, n)) for l in ls})
            if r.random() < .6:
                o = r.sample(DIRS, 4)
                d["interaction_order"] = dict(x_type=o, z_type=r.sample(o, 4)) if r.random() < .5 else o
        d = copy.deepcopy(d)
        self.learn(layout_dict_content(d))
        self.edges = sum(v is not None for q in d["layout"] for v in q["neighbors"].values())
        self.op(dict(op="new", kind="layoutdict"), lambda: d, "layoutdict")

    def new_setup(self):
        r = self.rng
        s = []
        for q in r.sample(TUPLES, r.randint(1, 4)):
            e = {p: self.number() for p in r.sample(PARAMS, r.randint(1, 4))}
            if len(q) == 1:
                e["qubit"] = q[0]
            elif q:
                e["qubits"] = list(q)
            s.append(e)
        d = dict(setup=s)
        if r.random() < .5:
            d["gate_durations"] = {g: r.randint(1, 90) for g in r.sample(GATES, 2)}
        for k in ("name", "description"):
            if r.random() < .4:
                d[k] = r.choice(["a", "b c"])
        self.op(dict(op="new", kind="setupdict"), lambda: d, "setupdict")

    def number(self):
        r = self.rng
        return r.choice([r.choice(VARS), r.choice(VARS), r.random(), r.randint(0, 3), r.random() < .5, 1e-9])

    # -- steps --
    def make(self):
        from surface_sim import Setup
        from surface_sim.layouts import Layout

        r = self.rng
        i = self.some("layoutdict", "setupdict", "layout", "setup")
        k = self.kinds[i]
        obj = k in ("layout", "setup")
        cls = Layout if k.startswith("layout") else Setup
        kind = cls.__name__.lower()
        t = self.things[i]
        if obj:
            w = r.random()
            if w < .35:
                self.op(dict(op="dump", src=i + 1), t.to_dict, kind + "dict")
            elif w < .65:
                olds = [f for f in self.files if self.kinds[f] == kind + "dict"]
                if olds and r.random() < .4:  # overwrites a file
                    f = r.choice(olds)
                    self.op(dict(op="rewrite", src=i + 1, id=f + 1), lambda: t.to_yaml(self.files[f]))
                else:
                    p = self.dir / f"f{len(self.things)}.yaml"
                    arg = p if r.random() < .5 else str(p)
                    self.op(dict(op="dump", src=i + 1), lambda: (t.to_yaml(arg), p)[1], kind + "dict")
            else:
                fn = copy.copy if k == "layout" and r.random() < .6 else copy.deepcopy
                self.op(dict(op="copy", src=i + 1), lambda: fn(t), kind)
        elif i in self.files:
            arg = self.files[i] if r.random() < .5 else str(self.files[i])
            self.op(dict(op="load", src=i + 1), lambda: cls.from_yaml(arg), kind)
        else:
            self.op(dict(op="load", src=i + 1), lambda: cls(t), kind)

    def set(self, i, key, v, fn):
        """Change the answer to key of thing i."""
        self.op(dict(op="set", id=i + 1, key=list(key), v=v), fn)

    def change_layout(self):
        r = self.rng
        i = self.some("layout")
        if i is None:
            return
        l = self.things[i]
        q = r.choice(l.get_qubits())
        w = r.randrange(8)
        if w <= 1:
            k, v = r.choice(["colour", "role", "freq_group"]), r.choice(["red", "low", "x", 3, [1, 2], dict(a=[3])])
            self.names.add(k)
            self.set(i, ("attr", q, k), js(v), lambda: l.set_param(k, q, copy.deepcopy(v)))
        elif w == 2 and l.log_z:
            o = r.choice([l.log_z, l.log_x])
            x = r.choice(sorted(o))
            new = o[x] + ["D99"]
            self.set(i, ("log_z" if o is l.log_z else "log_x", x), js(new), lambda: o[x].append("D99"))
        elif w == 3 and l.interaction_order:
            o = l.interaction_order

            def f():
                (o if isinstance(o, list) else o[sorted(o)[0]]).reverse()
            self.op(dict(op="bulk", id=i + 1, key=["interaction_order"]), f)
        elif w == 4:
            self.set(i, ("name",), js("new" + str(len(self.ops))), lambda n=len(self.ops): setattr(l, "name", "new" + str(n)))
        elif w == 5:  # in place, in a nested value
            ks = [(q, k) for q in l.get_qubits() for k in sorted(self.names) if isinstance(l.param(k, q), (list, dict))]
            if ks:
                q, k = r.choice(ks)

                def f():
                    v = l.param(k, q)
                    if isinstance(v, list):
                        v.append("odd")
                    else:
                        x = sorted(v)[0]
                        v[x] = v[x] + ["odd"] if isinstance(v[x], list) else ["odd"]
                self.op(dict(op="bulk", id=i + 1, key=["attr"]), f)
        elif w == 6:  # gates of the library
            fam = {"rotated_surface_code": "rot", "unrotated_surface_code": "unrot"}.get(l.code)
            if fam and len(l.get_logical_qubits()) == 1 and self.whole(l):
                g = zoo.loggates(fam)
                opts = []
                c = zoo.corners(l)
                if fam == "unrot" and l.distance_z == l.distance_x:
                    opts += [lambda: g.set_trans_s(l, c[0]), lambda: g.set_trans_h(l, c[-1])]
                if fam == "rot" and l.distance_z == l.distance_x + 1:
                    opts += [lambda: g.set_trans_s(l, c[0])]
                if opts:
                    x = l.get_logical_qubits()[0]
                    self.names |= {f"trans-s_{x}", f"trans-h_{x}"}
                    self.op(dict(op="bulk", id=i + 1, key=["attr"]), r.choice(opts))
        elif w == 7:
            from surface_sim.layouts import set_coords
            if l.code and self.whole(l):
                self.op(dict(op="bulk", id=i + 1, key=["attr"]), lambda: set_coords(l, override=True))

    def change_setup(self):
        r = self.rng
        i = self.some("setup")
        if i is None:
            return
        s = self.things[i]
        if r.random() < .5:
            p, q, v = r.choice(PARAMS), r.choice(TUPLES), self.number()
            self.set(i, ("per", p, *q) if q else ("glob", p), value(v), lambda: s.set_param(p, v, *q))
        elif r.random() < .85:
            x, v = r.choice(VARS), r.choice([None, r.random(), r.random(), 1, "Z", True])
            self.set(i, ("var", x), ["unset"] if v is None else ["num", repr(v)], lambda: s.set_var_param(x, v))
        else:
            n = "new" + str(len(self.ops))
            self.set(i, ("name",), js(n), lambda: setattr(s, "name", n))

    def change_dict(self):
        r = self.rng
        i = self.some("layoutdict", "setupdict", files=False)
        if i is None:
            return
        d = self.things[i]
        if self.kinds[i] == "setupdict":
            w = r.randrange(4)
            e = r.choice(d["setup"])
            ps = [p for p in e if p not in ("qubit", "qubits")]
            q = (e["qubit"],) if "qubit" in e else tuple(e.get("qubits", ()))
            if w <= 1:
                p = r.choice(ps or PARAMS)
                v = self.number()
                self.set(i, ("per", p, *q) if q else ("glob", p), value(v), lambda: e.update({p: v}))
            elif w == 2 and d.get("gate_durations"):
                g = r.choice(GATES)
                self.set(i, ("dur", g), value(5), lambda: d["gate_durations"].update({g: 5}))
            else:
                self.set(i, ("name",), js("changed"), lambda: d.update(name="changed"))
            return
        e = r.choice(d["layout"])
        q = e["qubit"]
        w = r.randrange(6)
        if w == 0:
            self.names.add("colour")
            self.set(i, ("attr", q, "colour"), js("blue"), lambda: e.update(colour="blue"))
        elif w == 1 and d.get("log_z"):
            k = r.choice(["log_z", "log_x"])
            x = r.choice(sorted(d[k]))
            new = d[k][x] + ["D98"]
            self.set(i, (k, x), js(new), lambda: d[k][x].append("D98"))
        elif w == 2 and d.get("interaction_order"):
            o = d["interaction_order"]

            def f():
                (o if isinstance(o, list) else o[sorted(o)[0]]).reverse()
            self.op(dict(op="bulk", id=i + 1, key=["interaction_order"]), f)
        elif w == 3:
            ks = [k for k, v in e.items() if isinstance(v, (list, dict)) and k != "neighbors"]
            if ks:
                v = e[r.choice(ks)]

                def f():
                    if isinstance(v, list):
                        v.append("odd")
                    else:
                        v[sorted(v)[0]] = ["odd"]
                self.op(dict(op="bulk", id=i + 1, key=["attr"]), f)
        elif w == 4:
            ks = [k for k, v in e["neighbors"].items() if v is not None]
            if ks:
                k = r.choice(ks)
                self.set(i, ("nbr", q, k), ["none"], lambda: e["neighbors"].update({k: None}))
        else:
            self.set(i, ("description",), js("changed"), lambda: d.update(description="changed"))

    def build(self):
        """The circuit of an experiment depends on the values only."""
        from surface_sim import Detectors
        from surface_sim.models import CircuitNoiseModel, NoiselessModel

        r = self.rng
        i = self.some("layout")
        j = self.some("setup")
        if i is None:
            return
        l = self.things[i]
        v = {"rotated_surface_code": ["rot_css", "rot_xzzx", "rot_css_pipe"], "unrotated_surface_code": ["unrot_css"]}.get(l.code)
        if not v or len(l.get_logical_qubits()) != 1:
            return
        if not self.whole(l):
            return
        v = r.choice(v)
        if j is not None:
            for p in ["sq_error_prob", "tq_error_prob", "assign_error_prob", "assign_error_flag"]:
                try:
                    x = self.things[j].param(p)
                    if isinstance(x, str) or not 0 <= x <= 1:
                        j = None
                        break
                except Exception:
                    j = None
                    break
        cfg = [v, "noisy" if j is not None else "noiseless", r.choice(["x", "z"])]

        def fn():
            inds = l.qubit_inds()
            m = CircuitNoiseModel(self.things[j], inds) if j is not None else NoiselessModel(inds)
            det = Detectors(l.get_qubits(role="anc"), frame="post-gate", anc_coords=l.anc_coords())
            e = zoo.emod(v)
            kw = dict(anc_detectors=None)
            return str(e.memory_experiment(m, l, det, num_rounds=2, data_init={q: 0 for q in l.get_qubits(role="data")},
                                           rot_basis=cfg[2] == "x", anc_reset=True, **kw))
        self.op(dict(op="build", ids=[i + 1] + ([j + 1] if j is not None else []), cfg=cfg), fn)

    def whole(self, l):
        """Nothing that a circuit needs has been changed."""
        qs = l.get_qubits()
        return (len(l.get_neighbors(qs)) == self.edges and all(l.param("role", q) in ("data", "anc") and len(l.param("coords", q) or ()) == 2 for q in qs)
                and "odd" not in str([l.param("coords", q) for q in qs])
                and not any("D99" in x or "D98" in x for o in (l.log_z, l.log_x) for x in o.values()) and isinstance(l.interaction_order, dict)
                and len(l.get_qubits(role="data")) * 2 - 1 == len(qs)
                and all(l.param("stab_type", q) in ("x_type", "z_type") for q in l.get_qubits(role="anc")))


def history(arg):
    i, seed, length = arg

    def f():
        with tempfile.TemporaryDirectory() as t:
            h = History(seed, t)
            r = h.rng
            what = r.choice(["layout", "setup", "both"])
            if what != "setup":
                h.new_layout()
            if what != "layout":
                h.new_setup()
            h.make()
            for _ in range(length):
                w = r.random()
                if w < .4 and len(h.things) < 9:
                    h.make()
                elif w < .55:
                    h.change_layout()
                elif w < .7:
                    h.change_setup()
                elif w < .85:
                    h.change_dict()
                else:
                    h.build()
                if h.ops[-1]["raised"]:
                    break
            return dict(id=i, ops=h.ops)

    return call(f, 120)


def slim(case):
    return dict(case, ops=[{k: v for k, v in o.items() if k != "error"} for o in case["ops"]])


def body(c):
    T = c.thorough
    jobs = [(k, c.seed * 7013 + k, 40 if T else 22) for k in range(3000 if T else 400)]
    with ThreadPoolExecutor(6) as ex:
        sane = ex.submit(run_tlc, "StoreModel", "StoreModel_none.cfg", None, 2)
        odd = [(x, ex.submit(run_tlc, "StoreModel", f"StoreModel_{x}.cfg", None, 1, 300, "2g", (), False)) for x in FAULTS]
        res = pmap(history, jobs, chunksize=4)
        r = sane.result()
        for x, fut in odd:
            if not fut.result().violated:
                raise Machinery(f"StoreModel.tla does not notice the fault {x}")
    c.stats(dict(states=r.distinct, transitions=r.generated, traces=0))
    c.count("model_states", r.distinct)
    cases = []
    for j, (x, err) in zip(jobs, res):
        if err:
            c.violation("raised", dict(seed=j[1], error=err))
        else:
            cases.append(x)
    for k in range(0, len(cases), 500):
        part = cases[k:k + 500]
        bad, st = validate("StoreTrace", [slim(x) for x in part], timeout=3400)
        c.stats(st)
        for x in part:
            if x["id"] in bad:
                at, clause = bad[x["id"]]
                o = {a: (b if a != "new" else "...") for a, b in x["ops"][at - 1].items()}
                o["diff"] = o["diff"][:6]
                c.violation(clause, dict(call=o, history=[(y["op"], y.get("src"), y.get("id"), y.get("kind"), y.get("key")) for y in x["ops"][:at]],
                                         seed=jobs[x["id"]][1]))
    c.count("histories", len(cases))
    for op in ("load", "dump", "copy", "rewrite", "set", "bulk", "build"):
        c.count("op_" + op, sum(o["op"] == op for x in cases for o in x["ops"]))
    c.sample([o["op"] for o in cases[0]["ops"]])
    c.assumptions += ["free parameters are stored by name, their current values are not part of the stored setup",
                      "the order of neighbours is not compared", "the indices of a layout are not changed through set_param"]


if __name__ == "__main__":
    import sys
    sys.exit(main("C11", body))
