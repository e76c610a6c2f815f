"""Histories recorded inside real experiments and programs: with SURFACE_SIM_TRACE set, the
package reports its calls; the ones made to the models and to the detector builders become
cases for specs/MeasRecordTrace.tla and specs/DetectorsTrace.tla.

Has to be imported before surface_sim is (vlib.main imports it in `body`, so checks import
this module at the top)."""
import os

os.environ["SURFACE_SIM_TRACE"] = "1"

MEAS = dict(measure="Z", measure_z="Z", measure_x="X", measure_y="Y")


class Skip(Exception):
    pass


def seq(x):
    """The elements of a container; an iterator must not be consumed here."""
    from collections.abc import Collection

    if not isinstance(x, Collection):
        raise Skip
    return list(x)


def arguments(func, args, kwargs):
    """Arguments by name, without self."""
    import inspect

    b = inspect.signature(func).bind(*args, **kwargs)
    b.apply_defaults()
    return dict(list(b.arguments.items())[1:])


class ModelLog:
    def __init__(self, m):
        self.m, self.names, self.skip = m, {m.get_inds([q])[0]: q for q in m.qubits}, None
        self.ops, self.rec, self.count = [], [], {}

    def new(self):
        self.rec, self.count = [], {}

    def drop(self, why):
        self.skip = why


class Tracer:
    """with Tracer() as t: run something; t.models, t.detectors hold the histories."""

    def __init__(self, kinds=("model", "detectors")):
        self.kinds = kinds
        self.logs, self.dets, self.keep, self.depth = {}, {}, [], {}
        self.calls = 0

    def __enter__(self):
        from surface_sim import Detectors, _trace
        from surface_sim.models import Model

        self.Model, self.Detectors, self.list = Model, Detectors, _trace.LISTENERS
        self.list.append(self.listen)
        return self

    def __exit__(self, *_):
        self.list.remove(self.listen)

    def listen(self, event, name, args, kwargs, value):
        if not args or not isinstance(args[0], (self.Model, self.Detectors)):
            return
        o = args[0]
        if name.split(".")[-2] not in [t.__name__ for t in type(o).__mro__]:
            return  # a function whose first argument is a model
        key = id(o)
        if event == "call":
            d = self.depth.setdefault(key, [])
            d.append(None)
            if len(d) > 1:
                return
            self.keep.append(o)
            self.calls += 1
            try:
                d[0] = self.before(o, name.rsplit(".", 1)[1], args, kwargs)
            except Exception as e:  # arguments this harness cannot read: nothing to judge
                for h in (self.logs.get(key), self.dets.get(key)):
                    if h is not None:
                        h.drop(f"{name}: {e!r}")
            return
        d = self.depth[key]
        if len(d) == 1 and d[0] is not None:
            self.after(o, d[0], event == "raise", value)
        d.pop()

    def before(self, o, name, args, kwargs):
        if isinstance(o, self.Model):
            return self.model_call(o, name, args, kwargs)
        return self.det_call(o, name, args, kwargs)

    # ---- models ----
    def model_call(self, o, name, args, kwargs):
        if name == "__init__":
            return dict(op="made")
        if id(o) not in self.logs:
            return None
        if name in MEAS:
            a = arguments(getattr(type(o), name), args, kwargs)
            if "qubits" not in a:
                return None
            return dict(op="meas", q=seq(a["qubits"]), b=MEAS[name], emit=[])
        if name == "meas_target":
            a = list(arguments(type(o).meas_target, args, kwargs).values())
            return dict(op="look", q=a[0], k=int(a[1]), off=0)
        if name == "new_circuit":
            return dict(op="new")
        if name in ("gen_prob_dict",) or name[0] == "_":
            return None
        return dict(op="other", emit=[])

    def after(self, o, op, raised, value):
        import stim

        op["raised"] = raised
        if op["op"] == "made":
            if not raised:
                self.logs[id(o)] = ModelLog(o)
            return
        if id(o) in self.dets and isinstance(o, self.Detectors) or op["op"] == "dmade":
            return self.det_after(o, op, raised, value)
        log = self.logs[id(o)]
        if raised:
            log.ops.append(op)
            return
        if op["op"] in ("meas", "other"):
            if not isinstance(value, stim.Circuit):
                if op["op"] == "meas":
                    op["emit"] = [["not a circuit", ""]]
                else:
                    return
            else:
                op["emit"] = self.measurements(o, value)
            if op["op"] == "other" and not op["emit"]:
                return  # nothing to judge, keep the histories short
            for q, _ in op["emit"]:
                log.count[q] = log.count.get(q, 0) + 1
                log.rec.append((q, log.count[q]))
        elif op["op"] == "look":
            op["off"] = value.value if value.is_measurement_record_target else 1000
        elif op["op"] == "new":
            log.new()
            for d in self.dets.values():
                d.model_reset(log)
        log.ops.append(op)

    def measurements(self, o, circ):
        from enc import Enc

        names = self.logs[id(o)].names
        return [[names.get(q, f"index {q}"), b] for q, b, _ in Enc(circ).meas]

    # ---- detector builders ----
    def det_call(self, o, name, args, kwargs):
        if name == "__init__":
            a = arguments(type(o).__init__, args, kwargs)
            return dict(op="dmade", labels=list(a["anc_qubits"]), frame=a["frame"],
                        coords={q: tuple(c) for q, c in (a["anc_coords"] or {}).items()})
        d = self.dets.get(id(o))
        if d is None:
            return None
        f = getattr(type(o), name, None)
        if f is None or name[0] == "_":
            return None
        a = arguments(f, args, kwargs)
        num = d.num
        if name in ("activate_detectors", "deactivate_detectors"):
            return dict(op=name.split("act")[0] + "act", s=[num.get(q, 0) for q in seq(a["anc_qubits"])])
        if name == "update_from_dict":
            g = a["new_stab_gens"]
            u = [sorted(num.get(b, 0) for b in seq(g.get(q, [q]))) for q in d.labels]
            return dict(op="gate", u=u, unknown=not set(g) <= set(num))
        if name == "update":
            m = a["unitary_mat"]
            u = []
            for q in d.labels:
                row = m.sel(new_stab_gen=q)
                u.append(sorted(num[b] for b in d.labels if int(row.sel(stab_gen=b).values) == 1))
            return dict(op="gate", u=u, unknown=False)
        if name in ("build_from_anc", "build_from_data"):
            sel = d.labels if a["anc_qubits"] is None else seq(a["anc_qubits"])
            op = dict(op="round" if name == "build_from_anc" else "data", sel=[num.get(q, 0) for q in sel],
                      reset=bool(a["anc_reset"]), get=a["get_rec"], dets=[])
            if op["op"] == "data":
                op["s"] = [num.get(q, 0) for q in seq(a["reconstructable_stabs"])]
                op["sup"] = [seq(a["anc_support"][q]) for q in seq(a["reconstructable_stabs"])]
            return op
        if name == "new_circuit":
            return dict(op="new")
        return None

    def det_after(self, o, op, raised, value):
        if op["op"] == "dmade":
            if not raised:
                self.dets[id(o)] = DetLog(op, self)
            return
        self.dets[id(o)].add(op, raised, value)


class DetLog:
    def __init__(self, made, tracer):
        self.t = tracer
        self.labels, self.frame, self.coords = made["labels"], made["frame"], made["coords"]
        self.num = {q: k + 1 for k, q in enumerate(self.labels)}
        self.by_xy = {c: self.num[q] for q, c in self.coords.items()}
        self.runs, self.log = [], None
        self.start()

    def start(self):
        self.cur = dict(n=len(self.labels), frame=self.frame, reset=None, ops=[], skip=None)
        self.runs.append(self.cur)

    def model_reset(self, log):
        if log is self.log and any(o["op"] in ("round", "data") for o in self.cur["ops"]):
            self.cur["skip"] = "model reset alone"

    def outcome(self, q, k):
        if q in self.num:
            return [self.num[q], k]
        return [1001 + self.names().index(q), k]

    def names(self):
        return sorted(q for q in self.log.names.values() if q not in self.num)

    def drop(self, why):
        self.cur["skip"] = why

    def add(self, op, raised, value):
        if op["op"] == "new":
            self.start()
            return
        op["raised"] = raised
        c = self.cur
        if op["op"] in ("round", "data"):
            get, reset = op.pop("get"), op.pop("reset")
            self.log = self.t.logs.get(id(getattr(get, "__self__", None)))
            if len(self.by_xy) != len(self.labels):
                c["skip"] = "no coordinates"
            if self.log is None:
                c["skip"] = "unknown model"
            if c["reset"] not in (None, reset):
                c["skip"] = "mixed resets"
            c["reset"] = reset
            if not c["skip"]:
                if op["op"] == "data":
                    op["sup"] = [[self.outcome(q, self.log.count.get(q, 0)) for q in s] for s in op["sup"]]
                if not raised:
                    op["dets"] = self.read(value)
        c["ops"].append(op)

    def read(self, circ):
        out, rec = [], self.log.rec
        for ins in circ.flattened():
            if ins.name != "DETECTOR":
                continue
            g = ins.gate_args_copy()
            out.append(dict(a=self.by_xy.get(tuple(g[:-1]), 0), t=int(2 * g[-1]) if g else -1,
                            m=[self.outcome(*rec[t.value]) for t in ins.targets_copy()]))
        return out

    def cases(self):
        for c in self.runs:
            if c["ops"] and not c["skip"] and c["reset"] is not None:
                yield {k: v for k, v in c.items() if k != "skip"}


def run(cfg):
    """Histories of one experiment (zoo) or program (progs): (model cases, detector cases, skipped, calls)."""
    import progs, zoo

    with Tracer() as t:
        if "hist" in cfg:
            progs.replay(cfg["cfg"], cfg["hist"])
        else:
            zoo.build(cfg)
    models = [m.ops for m in t.logs.values() if m.ops and not m.skip]
    dets = [x for d in t.dets.values() for x in d.cases()]
    skip = [m.skip for m in t.logs.values() if m.skip] + [c["skip"] for d in t.dets.values() for c in d.runs if c["skip"]]
    return models, dets, skip, t.calls


def one(cfg):
    from vlib import call

    return call(lambda: run(cfg), 120)


def configs(rng, n, deep=False):
    """Experiments and programs in which to record."""
    import progs, zoo

    out = zoo.memory_configs(rng, n, [(2, 2), (3, 2), (2, 3), (3, 3)] + ([(4, 3), (3, 5)] if deep else []), 4,
                             models=["noiseless", "circuit", "biased", "phenom", "incoming"])
    out += zoo.gate_configs(rng, n, frames=zoo.FRAMES[:2], models=["noiseless", "circuit", "biased", "phenom", "incoming"])
    for which in progs.SETS:
        for h in progs.behaviours(max(4, n // 4), progs.SETS[which]["gates"], seed=rng.randrange(1, 10 ** 6)):
            out.append(dict(cfg=progs.prog_cfg(rng, which), hist=h))
    return out
