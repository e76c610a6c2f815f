"""C19: invalid requests are rejected and leave no trace."""
import random
from concurrent.futures import ThreadPoolExecutor

import dets, noise, progs, reqs, zoo
from c01 import Rec
from noise import strip
from vlib import call, main, pmap, run_tlc, validate

FAULTS = ["trace", "stale", "shared", "dirty", "lax"]


# ---- flawed requests in the middle of a program of blocks ----
def flawed(c, rng, on):
    """A flawed request on codes c of which those in on are active: (name, flaw, function)."""
    import stim
    from surface_sim import util as su
    from surface_sim.util.circuit_operations import merge_tick_blocks  # noqa

    blk, m, d, lays = c.blk, c.model, c.detectors, c.layouts
    on = sorted(on)
    off = [k for k in range(len(lays)) if k not in on]
    k = rng.choice(on) if on else None
    l = lays[k] if on else None
    some = lambda: rng.sample(c.ancs, rng.randint(0, 3)) + ["nobody"]
    out = []

    def add(name, flaw, fn):
        out.append((name, flaw, fn))

    active = [lays[j] for j in on]
    if on:
        add("qec_round", "unknown", lambda: blk.qec_round(m, l, d, anc_reset=c.reset, anc_detectors=some()))
        add("qec_round", "type", lambda: blk.qec_round(m, l, d, anc_reset=c.reset, anc_detectors=3))
        other = [a for a in c.ancs if a not in l.get_qubits()]
        if other:
            add("qec_round", "unknown", lambda: blk.qec_round(m, l, d, anc_reset=c.reset, anc_detectors=other[:2]))
        add("log_meas", "unknown", lambda: blk.log_meas(m, l, d, rot_basis=rng.random() < .5, anc_reset=c.reset, anc_detectors=some()))
        add("init_qubits", "state", lambda: blk.init_qubits(m, l, d, {q: 0 for q in l.get_qubits(role="data")}))
        it, mit = blk.qec_round_iterator, blk.log_meas_iterator
        add("merge_qec_rounds", "unknown", lambda: su.merge_qec_rounds(it, m, active, d, anc_detectors=some()))
        add("merge_qec_rounds", "type", lambda: su.merge_qec_rounds(it, m, rng.choice([None, 3, set(active), l]), d))
        add("merge_qec_rounds", "type", lambda: su.merge_qec_rounds(it, m, active + [rng.choice([None, "L0"])], d))
        add("merge_qec_rounds", "type", lambda: su.merge_qec_rounds(rng.choice([None, "it"]), m, active, d))
        bases = [False] * len(active)
        add("merge_log_meas", "unknown", lambda: su.merge_log_meas(mit, m, active, d, bases, anc_detectors=some()))
        add("merge_log_meas", "type", lambda: su.merge_log_meas(mit, m, rng.choice([None, set(active)]), d, bases))
        add("merge_log_meas", "type", lambda: su.merge_log_meas(mit, m, active + ["L0"], d, bases + [True]))
        add("merge_log_meas", "type", lambda: su.merge_log_meas(None, m, active, d, bases))
        add("merge_log_meas", "type", lambda: su.merge_log_meas(mit, m, active, d, rng.choice([None, True])))
        add("merge_log_meas", "size", lambda: su.merge_log_meas(mit, m, active, d, bases + [False]))
        add("merge_log_meas", "size", lambda: su.merge_log_meas(mit, m, active, d, bases[1:]))
        ancs = l.get_qubits(role="anc")
        add("activate_detectors", "state", lambda: d.activate_detectors(rng.sample(ancs, 1)))
        if len(on) > 1:
            add("activate_detectors", "state", lambda: d.activate_detectors(
                [a for j in off for a in lays[j].get_qubits(role="anc")] + ancs[:1]))
        a, b = ancs[:2]
        add("update_from_dict", "value", lambda: d.update_from_dict({a: [b], b: [b]}))
        add("update_from_dict", "value", lambda: d.update_from_dict({a: []}))
    if off:
        j = rng.choice(off)
        add("deactivate_detectors", "state", lambda: d.deactivate_detectors(lays[j].get_qubits(role="anc")))
        add("deactivate_detectors", "state", lambda: d.deactivate_detectors(
            ([a for i in on for a in lays[i].get_qubits(role="anc")] + lays[j].get_qubits(role="anc"))[::-1]))
        add("init_qubits", "unknown", lambda: blk.init_qubits(m, lays[j], d, {"nobody": 1}))
        add("init_qubits", "type", lambda: blk.init_qubits(m, lays[j], d, rng.choice([None, 3])))
    add("activate_detectors", "unknown", lambda: d.activate_detectors(["nobody"]))
    add("deactivate_detectors", "unknown", lambda: d.deactivate_detectors(["nobody"]))
    add("update_from_dict", "unknown", lambda: d.update_from_dict({"nobody": ["nobody"]}))
    add("update_from_dict", "type", lambda: d.update_from_dict(rng.choice([None, ["X1"], {c.ancs[0]: 3}])))
    add("update", "type", lambda: d.update(None))
    add("build_from_anc", "type", lambda: d.build_from_anc(None, True))
    add("build_from_data", "type", lambda: d.build_from_data(m.meas_target, None, True, []))
    add("build_from_data", "unknown", lambda: d.build_from_data(m.meas_target, {}, True, [c.ancs[0]]))
    add("build_from_data", "unknown", lambda: d.build_from_data(m.meas_target, {"nobody": [c.data[0]]}, True, ["nobody"]))
    g = rng.choice([x for x in noise.GATES if x not in noise.MEAS and x != "incoming"])
    q = rng.choice(c.data)
    add(g, "unknown", lambda: getattr(m, noise.GATES[g])([q, "nobody"]))
    g2 = rng.choice(list(noise.MEAS))
    add(g2, "unknown", lambda: getattr(m, noise.GATES[g2])([q, "nobody"]))
    add("meas_target", "unknown", lambda: m.meas_target("nobody", -1))
    add("meas_target", "state", lambda: m.meas_target(q, -1000))
    add("qubit_coords", "unknown", lambda: m.qubit_coords({q: [0, 0], "nobody": [0, 1]}))
    t = stim.Circuit("M 0\nTICK\nM 0")
    add("merge_circuits", "type", lambda: su.merge_circuits(t, rng.choice([None, "H 0"])))
    add("merge_circuits", "size", lambda: su.merge_circuits(stim.Circuit("H 0\nTICK\nH 0"), stim.Circuit("H 1")))
    add("merge_circuits", "value", lambda: su.merge_circuits(t, stim.Circuit("H 1\nTICK\nH 1")))
    add("merge_circuits", "value", lambda: su.merge_circuits(stim.Circuit("M 0\nTICK\nH 0"), stim.Circuit("H 1\nTICK\nMX 1")))
    nogate = [x for x in ("s", "h") if x not in c.cfg["gates"]]
    if on and nogate and zoo.MEM[c.v][0] not in ("rot_surface_code_xzzx", "rot_surface_code_xzzx_pipelined"):
        import surface_sim.circuit_blocks.util as u

        x = rng.choice(nogate)
        add(f"log_trans_{x}", "state", lambda: getattr(u, f"log_trans_{x}")(m, l, d))
        if len(lays) > 1:
            pairs = [(i, j) for i in range(len(lays)) for j in range(len(lays)) if i != j and (i, j) not in c.cnots]
            if pairs:
                pair = rng.choice(pairs)
                add("log_trans_cnot", "state", lambda: u.log_trans_cnot(m, lays[pair[0]], lays[pair[1]], d))
    fam = "unrot" if c.fam == "rot" else "rot"
    add("qec_round", "type", lambda: blk.qec_round(m, zoo.layout(fam, 2, 2), d))
    return out


def program(arg):
    i, cfg, hist, seed, rate = arg

    def f():
        log = reqs.Log()
        rng = random.Random(seed)

        def answers(steps):
            cn = reqs.Canon()
            return [cn.feed(s["circ"]) for s in steps]

        _, _, fresh = progs.replay(cfg, hist)
        for n, a in enumerate(answers(fresh)):
            log.ask(hist[n]["op"], lambda: a, key=str(n), out=lambda r: r)
        names = {}

        def before(c, n):
            on = set()
            for st in hist[:n]:
                if st["op"] == "init":
                    on.add(st["k"] - 1)
                elif st["op"] == "meas":
                    on.discard(st["k"] - 1)
            if any(st["op"] == "measall" for st in hist[:n]):
                return
            while rng.random() < rate:
                fl = flawed(c, rng, on)
                for name, flaw, fn in rng.sample(fl, min(3, len(fl))):
                    names[name, flaw] = 1
                    log.ask(name, fn, flaw=flaw)

        try:
            _, _, steps = progs.replay(cfg, hist, before)
        except progs.Machinery:
            raise
        except Exception as e:
            if isinstance(e, reqs.CaseTimeout):
                raise
            n = len(log.ops)
            err = reqs.describe_exc(e)
            return log.ops, log.info, err
        for n, a in enumerate(answers(steps)):
            log.ask(hist[n]["op"], lambda: a, key=str(n), out=lambda r: r)
        return log.ops, log.info, None

    return call(f, 120)


# ---- flawed experiments between valid ones ----
def flawed_experiments(cfg, b, rng):
    from functools import partial

    m = zoo.emod(cfg["v"])
    fam = zoo.MEM[cfg["v"]][1]
    data = {q: 0 for q in b.data}
    google = cfg["v"] == "rot_xzzx_google"
    extra = {} if google else dict(anc_reset=cfg.get("reset", True))
    base = dict(model=b.model, detectors=b.detectors, data_init=data, rot_basis=rng.random() < .5, **extra)
    lay = b.layouts[0]
    out = []

    def add(name, flaw, **kw):
        out.append((name, flaw, partial(getattr(m, name), **{**base, **kw})))

    me = "memory_experiment"
    one = dict(layout=lay, num_rounds=2)
    add(me, "type", **{**one, "num_rounds": rng.choice([1.0, "1", None, 2.5])})
    add(me, "value", **{**one, "num_rounds": rng.choice([-1, -7] + [0] * google)})
    add(me, "type", **{**one, "data_init": rng.choice([None, [0] * len(data), "0", 3])})
    add(me, "type", **{**one, "layout": rng.choice([None, "rot", lay.to_dict(), [lay]])})
    add(me, "unknown", **{**one, "data_init": {**data, "nobody": 1}})
    add(me, "unknown", **{**one, "anc_detectors": [b.ancs[0], "nobody"]})
    if len(b.data) and any(q not in lay.get_qubits() for q in b.ancs):
        far = [q for q in b.ancs if q not in lay.get_qubits()][:1]
        add(me, "unknown", **{**one, "anc_detectors": far})
    other = zoo.layout("unrot" if fam == "rot" else "rot", 2, 2)
    add(me, "type", **{**one, "layout": other, "data_init": {}})
    for g in ("s", "h", "cnot"):
        name = f"repeated_{g}_experiment"
        if not hasattr(m, name):
            continue
        n = f"num_{g}_gates"
        lays = dict(layout_c=lay, layout_t=b.layouts[-1]) if g == "cnot" else dict(layout=lay)
        if g == "cnot":
            lays["cnot_orientation"] = "constant"
        ok = {**lays, n: 2, "num_rounds_per_gate": 1}
        add(name, "type", **{**ok, n: rng.choice([None, 2.0, "2"])})
        add(name, "value", **{**ok, n: rng.choice([-1, -2] + [1, 3] * (g == "s"))})
        add(name, "type", **{**ok, "num_rounds_per_gate": rng.choice([None, 1.0, "1"])})
        add(name, "value", **{**ok, "num_rounds_per_gate": -1})
        add(name, "type", **{**ok, "data_init": rng.choice([None, [0], 1])})
        for x in ("layout", "layout_c", "layout_t"):
            if x in ok:
                add(name, "type", **{**ok, x: rng.choice([None, "L0", lay.to_dict()])})
        add(name, "unknown", **{**ok, "data_init": {**data, "nobody": 1}})
        if g == "cnot":
            add(name, "type", **{**ok, "cnot_orientation": rng.choice([None, "reverse", 1])})
        if cfg.get("gate") != g:  # not set up for this gate
            add(name, "state", **ok)
        elif len(b.layouts) == (2 if g == "cnot" else 1):
            add(name, "unknown", **{**ok, "anc_detectors": [b.ancs[0], "nobody"]})
    return out


def rebuild(cfg, b):
    """The valid experiment of cfg, with the objects of b."""
    m = zoo.emod(cfg["v"])
    kw = dict(model=b.model, detectors=b.detectors, data_init=dict(b.init), rot_basis=cfg.get("rot", False),
              gauge_detectors=cfg.get("gauge", False), anc_detectors=cfg.get("anc_detectors"))
    if cfg["v"] != "rot_xzzx_google":
        kw["anc_reset"] = cfg.get("reset", True)
    g = cfg.get("gate")
    if g is None:
        return m.memory_experiment(layout=b.layouts[0], num_rounds=cfg["rounds"], **kw)
    if g == "cnot":
        return m.repeated_cnot_experiment(layout_c=b.layouts[0], layout_t=b.layouts[1], num_cnot_gates=cfg["ng"],
                                          num_rounds_per_gate=cfg["rounds"], cnot_orientation=cfg["orient"], **kw)
    return getattr(m, f"repeated_{g}_experiment")(layout=b.layouts[0], num_rounds_per_gate=cfg["rounds"],
                                                  **{f"num_{g}_gates": cfg["ng"]}, **kw)


def experiment(arg):
    i, cfg, seed = arg

    def f():
        rng = random.Random(seed)
        b = zoo.build(cfg)
        log = reqs.Log()
        can = lambda circ: reqs.Canon().feed(circ)
        log.ask("experiment", lambda: b.circuit, key="e", out=can)
        fl = flawed_experiments(cfg, b, rng)
        rng.shuffle(fl)
        for n, (name, flaw, fn) in enumerate(fl):
            log.ask(name, fn, flaw=flaw)
            if n % 3 == 0 or n == len(fl) - 1:
                log.ask("experiment", lambda: rebuild(cfg, b), key="e", out=can)
        return log.ops, log.info, None

    return call(f, 120)


# ---- objects that cannot be made ----
def makers(arg):
    i, seed = arg

    def f():
        import numpy as np
        import xarray as xr
        from surface_sim import Detectors, Setup
        from surface_sim import layouts as L
        from surface_sim.detectors import get_support_from_adj_matrix  # noqa
        from surface_sim.layouts import Layout

        rng = random.Random(seed)
        log = reqs.Log()
        ask = lambda name, flaw, fn: log.ask(name, fn, flaw=flaw)
        lab = ["X1", "X2"]
        ask("Detectors", "type", lambda: Detectors(rng.choice([None, 3, {"X1", "X2"}]), "post-gate"))
        ask("Detectors", "type", lambda: Detectors(lab, rng.choice([None, 1])))
        ask("Detectors", "value", lambda: Detectors(lab, rng.choice(["", "gate", "post_gate"])))
        ask("Detectors", "type", lambda: Detectors(lab, "post-gate", anc_coords=[[0], [1]]))
        ask("Detectors", "unknown", lambda: Detectors(lab, "post-gate", anc_coords={"X1": [0], "nobody": [1]}))
        ask("Detectors", "unknown", lambda: Detectors(lab, "post-gate", anc_coords={"X1": [0]}))
        ask("Detectors", "unknown", lambda: Detectors(lab, "post-gate", anc_coords={"X1": [0], "X2": [1], "X3": [1]}))
        ask("Detectors", "size", lambda: Detectors(lab, "post-gate", anc_coords={"X1": [0], "X2": [1, 2]}))
        ask("Detectors", "type", lambda: Detectors(lab, "post-gate", anc_coords={"X1": 0, "X2": 1}))
        ask("Layout", "type", lambda: Layout(rng.choice([None, [], "layout"])))
        ask("Layout", "value", lambda: Layout({}))
        n = lambda q, **k: dict(qubit=q, role="data", neighbors={}, **k)
        ask("Layout", "value", lambda: Layout(dict(layout=[dict(role="data", neighbors={})])))
        ask("Layout", "value", lambda: Layout(dict(layout=[n("a"), n("b"), n("a")])))
        ask("Layout", "value", lambda: Layout(dict(layout=[dict(qubit="a", role="data")])))
        ask("Layout", "value", lambda: Layout(dict(layout=[n("a", ind=0), n("b")])))
        ask("Layout", "value", lambda: Layout(dict(layout=[n("a", ind=0), n("b", ind=0)])))
        ask("Layout", "value", lambda: Layout(dict(layout=[n("a")], logical_qubit_labels=["L"])))
        ask("Layout", "value", lambda: Layout(dict(layout=[n("a")], log_z={"L": ["a"]}, log_x={"L": ["a"]})))
        ask("Layout.from_yaml", "unknown", lambda: Layout.from_yaml("/nonexistent/layout.yaml"))
        ask("Setup.from_yaml", "unknown", lambda: Setup.from_yaml("/nonexistent/setup.yaml"))
        s = Setup(dict(setup=[dict(sq_error_prob=.1)]))
        ask("Setup", "value", lambda: Setup(dict(setup=[dict(qubit="a", p=.1), dict(qubit="a", q=.2)])))
        ask("Setup.param", "unknown", lambda: s.param("nothing"))
        ask("Setup.param", "unknown", lambda: s.param("nothing", "a"))
        ask("Setup.param", "type", lambda: s.param(3))
        ask("Setup.param", "type", lambda: s.param("sq_error_prob", 3))
        ask("Setup.set_param", "type", lambda: s.set_param(3, .1))
        ask("Setup.set_param", "type", lambda: s.set_param("sq_error_prob", [.1]))
        ask("Setup.set_param", "type", lambda: s.set_param("sq_error_prob", .1, 3))
        ask("Setup.var_param", "unknown", lambda: s.var_param("nothing"))
        ask("Setup.var_param", "type", lambda: s.var_param(3))
        ask("Setup.set_var_param", "type", lambda: s.set_var_param(3, .1))
        ask("Setup.gate_duration", "unknown", lambda: s.gate_duration("X"))
        ask("Setup.param", "", lambda: s.param("sq_error_prob"))
        for fam, f in (("rot", L.rot_surface_code_rectangle), ("unrot", L.unrot_surface_code_rectangle)):
            for bad in (0, -1):
                ask(f.__name__, "value", lambda: f(distance_z=bad, distance_x=3))
                ask(f.__name__, "value", lambda: f(distance_z=3, distance_x=bad))
            ask(f.__name__, "type", lambda: f(distance_z=3.0, distance_x=3))
            ask(f.__name__, "type", lambda: f(distance_z=3, distance_x="3"))
            ask(f.__name__, "type", lambda: f(distance_z=3, distance_x=3, logical_qubit_label=3))
            ask(f.__name__, "size", lambda: f(distance_z=3, distance_x=3, init_point=(1, 2, 3)))
            ask(f.__name__, "type", lambda: f(distance_z=3, distance_x=3, init_point=3))
            ask(f.__name__, "type", lambda: f(distance_z=3, distance_x=3, init_point=("a", 1)))
            for x in ("init_data_qubit_id", "init_zanc_qubit_id", "init_xanc_qubit_id"):
                ask(f.__name__, "type", lambda: f(distance_z=3, distance_x=3, **{x: 1.5}))
            lg = zoo.loggates(fam)
            good = zoo.layout(fam, 3, 2) if fam == "rot" else zoo.layout(fam, 2, 2)
            q = zoo.corners(good)[0]
            wrong = zoo.layout(fam, 2, 3)
            alien = zoo.layout("unrot" if fam == "rot" else "rot", 2, 2)
            ask(f"{fam} set_trans_s", "type", lambda: lg.set_trans_s(None, q))
            ask(f"{fam} set_trans_s", "size", lambda: lg.set_trans_s(wrong, zoo.corners(wrong)[0]))
            ask(f"{fam} set_trans_s", "unknown", lambda: lg.set_trans_s(good, "nobody"))
            ask(f"{fam} set_trans_s", "unknown", lambda: lg.set_trans_s(good, good.get_qubits(role="anc")[0]))
            ask(f"{fam} set_trans_s", "value", lambda: lg.set_trans_s(alien, zoo.corners(alien)[0]))
            ask(f"{fam} set_trans_s", "value", lambda: lg.set_trans_s(zoo.union([good, zoo.layout(
                fam, good.distance_z, good.distance_x, label="M", point=(50, 50), did=50, zid=50, xid=50, ind=90)]), q))
            if fam == "unrot":
                ask("unrot set_trans_h", "size", lambda: lg.set_trans_h(wrong, zoo.corners(wrong)[0]))
                ask("unrot set_trans_h", "unknown", lambda: lg.set_trans_h(good, "nobody"))
                ask("unrot set_trans_h", "value", lambda: lg.set_trans_h(alien, zoo.corners(alien)[0]))
            two = zoo.layout(fam, 2, 2, label="T", point=(30, 30), did=50, zid=50, xid=50, ind=50)
            ask(f"{fam} set_trans_cnot", "type", lambda: lg.set_trans_cnot(good, None))
            ask(f"{fam} set_trans_cnot", "size", lambda: lg.set_trans_cnot(wrong, two))
            ask(f"{fam} set_trans_cnot", "value", lambda: lg.set_trans_cnot(alien, two))
        return log.ops, log.info, None

    return call(f, 120)


def detector_history(arg):
    i, seed, length = arg

    def f():
        rng = random.Random(seed)
        cfg = dict(n=rng.randint(2, 6) if rng.random() > .05 else rng.randint(10, 24), frame=rng.choice(zoo.FRAMES), reset=rng.random() < .5, seed=seed)
        r = dets.Recorder(cfg)
        dets.random_history(r, length, invalid=.45)
        return r.case(i), r.ops, cfg

    return call(f, 60)


def all_maps(arg):
    """Every map on n stabilizers: the real object has to accept exactly the invertible ones."""
    i, n, how, maps = arg

    def f():
        r = dets.Recorder(dict(n=n, frame="post-gate", reset=True, seed=i))
        r.activate(range(1, n + 1))
        for u in maps:
            r.gate([set(x) for x in u], how=how)
        return r.case(i), r.ops, dict(n=n, how=how)

    return call(f, 120)


def map_jobs(rng, T, start):
    jobs = []
    for n in (1, 2, 3):
        subs = [[b + 1 for b in range(n) if k >> b & 1] for k in range(2 ** n)]
        maps = [[subs[k // len(subs) ** a % len(subs)] for a in range(n)] for k in range(len(subs) ** n)]
        for how in ("dict", "matrix"):
            jobs += [(n, how, maps[k:k + 64]) for k in range(0, len(maps), 64)]
    for _ in range(200 if T else 20):
        n = rng.randint(4, 7)
        jobs.append((n, rng.choice(["dict", "matrix"]),
                     [[[b + 1 for b in range(n) if rng.random() < .5] for _ in range(n)] for _ in range(30)]))
    for n in (9, 13, 20, 40):  # products of few additions, with or without a fault
        for how in ("dict", "matrix"):
            maps = []
            for _ in range(12):
                m = [{a} for a in range(1, n + 1)]
                rng.shuffle(m)
                for _ in range(rng.randint(1, 3 * n)):
                    a, b = rng.sample(range(n), 2)
                    m[a] = m[a] ^ m[b]
                if rng.random() < .5:
                    m[rng.randrange(n)] = set(rng.choice(m)) ^ set(rng.choice(m)) if rng.random() < .5 else set()
                maps.append([sorted(x) for x in m])
            jobs.append((n, how, maps))
    return [(start + k, *j) for k, j in enumerate(jobs)]


def record_history(arg):
    i, kind, seed = arg

    def f():
        r = Rec(kind, seed)
        for _ in range(12):
            r.bad()
            r.random(3)
        return r.ops

    return call(f, 60)


def judge(c, module, cases, report):
    for k in range(0, len(cases), 500):
        bad, st = validate(module, cases[k:k + 500], timeout=3000)
        c.stats(st)
        for i, v in bad.items():
            report(i, v)


def body(c):
    rng = random.Random(c.seed + 19)
    T = c.thorough
    with ThreadPoolExecutor(4) as ex:
        futs = [(w, ex.submit(progs.behaviours, 80 if T else 10, s["gates"], 3, 12, 6, 8, c.seed * 10 + k))
                for k, (w, s) in enumerate(progs.SETS.items())]
        sane = ex.submit(run_tlc, "RequestsModel", "RequestsModel_none.cfg", None, 2)
        odd = [(x, ex.submit(run_tlc, "RequestsModel", f"RequestsModel_{x}.cfg", None, 1, 300, "2g", (), False)) for x in FAULTS]
        hists = [(w, h) for w, f in futs for h in f.result()]
        r = sane.result()
        c.stats(dict(states=r.distinct, transitions=r.generated, traces=0))
        for x, f in odd:
            if not f.result().violated:
                raise progs.Machinery(f"RequestsModel.tla does not notice the faulty builder {x}")
    c.count("faulty_builders_noticed_by_the_clauses", len(FAULTS))
    # programs, experiments, constructors
    a = [(k, progs.prog_cfg(rng, w), h, rng.randrange(10 ** 9), .75) for k, (w, h) in enumerate(hists)]
    cfgs = zoo.memory_configs(rng, 200 if T else 36, [(2, 2), (3, 3), (2, 3)], max_rounds=3, gauge=(False, True), models=("noiseless", "circuit"))
    cfgs += zoo.gate_configs(rng, 200 if T else 36, small=3, max_ng=3, max_rounds=2, gauge=(False, True), models=("noiseless", "circuit"))
    b = [(10 ** 5 + k, cfg, rng.randrange(10 ** 9)) for k, cfg in enumerate(cfgs)]
    m = [(2 * 10 ** 5 + k, rng.randrange(10 ** 9)) for k in range(20 if T else 4)]
    jobs = a + b + m
    res = pmap(program, a) + pmap(experiment, b) + pmap(makers, m)
    cases, src = [], {}
    for j, (x, err) in zip(jobs, res):
        if err:
            c.violation("raised", dict(source=j[1:-1], error=err))
            continue
        ops, info, broke = x
        src[j[0]] = (j[1:], info)
        cases.append(dict(id=j[0], ops=ops))
        if broke:
            # a valid request failed after the flawed ones, or one of them was accepted: let TLC tell
            c.violation("valid request fails after flawed ones", dict(source=j[1:3], error=broke, last=info[-4:]))
    judge(c, "RequestsTrace", cases, lambda i, v: c.violation(
        v[1], dict(request=src[i][1][v[0] - 1], before=src[i][1][max(0, v[0] - 6):v[0] - 1], source=src[i][0])))
    c.count("flawed_requests", sum(o["flaw"] != "" for x in cases for o in x["ops"]))
    c.count("kinds_of_flawed_requests", len({(o["op"], o["flaw"]) for x in cases for o in x["ops"] if o["flaw"]}))
    c.count("answers_compared", sum(o["flaw"] == "" for x in cases for o in x["ops"]))
    # bookkeeping of detectors and outcomes
    d = [(k, c.seed * 1009 + k, 60 if T else 40) for k in range(2000 if T else 240)]
    rd = pmap(detector_history, d, chunksize=10)
    mj = map_jobs(rng, T, 10 ** 6)
    rd += pmap(all_maps, mj)
    c.count("gate_maps_offered", sum(len(j[3]) for j in mj))
    d += mj
    cases, src = [], {}
    for j, (x, err) in zip(d, rd):
        if err:
            c.violation("raised", dict(seed=j[1], error=err))
        else:
            cases.append(x[0])
            src[j[0]] = x[1:]
    judge(c, "DetectorsTrace", cases, lambda i, v: c.violation(
        v[1], dict(config=src[i][1], call=src[i][0][v[0] - 1], before=src[i][0][max(0, v[0] - 8):v[0] - 1])))
    c.count("detector_histories", len(cases))
    c.count("rejected_detector_calls", sum(o["raised"] for x in cases for o in x["ops"]))
    q = [(k, noise.KINDS[k % 8], c.seed * 2003 + k) for k in range(600 if T else 64)]
    rq = pmap(record_history, q, chunksize=8)
    cases = []
    for j, (x, err) in zip(q, rq):
        if err:
            c.violation("raised", dict(model=j[1], seed=j[2], error=err))
        else:
            cases.append(dict(id=j[0], ops=strip(x)))
    judge(c, "MeasRecordTrace", cases, lambda i, v: c.violation(v[1], dict(model=q[i][1], seed=q[i][2], call=rq[i][0][v[0] - 1])))
    c.count("measurement_histories", len(cases))
    c.sample(dict(program=[s["op"] for s in a[0][2]], config=a[0][1]))
    c.sample([x["op"] + ":" + x["flaw"] for x in res[0][0][1]][:40] if res[0][0] else None)
    c.assumptions += ["flawed requests are those of the catalogue in harness/c19.py: unknown names, ill-typed or impossible arguments,"
                      " inconsistent sizes, requests that the present state does not allow",
                      "a block that is rejected by the detectors only after it has measured (reading out an inactive code) is out of scope"]


if __name__ == "__main__":
    import sys
    sys.exit(main("C19", body))
