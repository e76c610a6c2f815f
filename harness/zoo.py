"""Configurations of the public experiments, and how to build them with the real code."""
import importlib
import random

MEM = {
    "rot_css": ("rot_surface_code_css", "rot"),
    "rot_css_pipe": ("rot_surface_code_css_pipelined", "rot"),
    "rot_xzzx": ("rot_surface_code_xzzx", "rot"),
    "rot_xzzx_pipe": ("rot_surface_code_xzzx_pipelined", "rot"),
    "rot_xzzx_google": ("rot_surface_code_xzzx_google", "rot"),
    "unrot_css": ("unrot_surface_code_css", "unrot"),
}
GATES = [("rot_css", "s"), ("rot_css_pipe", "s"), ("unrot_css", "s"), ("unrot_css", "h"),
         ("rot_css", "cnot"), ("unrot_css", "cnot")]
FRAMES = ["post-gate", "pre-gate", "gate-independent"]
XZZX = {"rot_xzzx", "rot_xzzx_pipe", "rot_xzzx_google"}


def emod(v):
    return importlib.import_module("surface_sim.experiments." + MEM[v][0])


def bmod(v):
    return importlib.import_module("surface_sim.circuit_blocks." + MEM[v][0])


def layout(fam, dz, dx, label="L0", point=(1, 1), did=1, zid=1, xid=1, ind=0):
    import surface_sim.layouts as L

    f = {"rot": L.rot_surface_code_rectangle, "unrot": L.unrot_surface_code_rectangle}[fam]
    return f(distance_z=dz, distance_x=dx, logical_qubit_label=label, init_point=tuple(point),
             init_data_qubit_id=did, init_zanc_qubit_id=zid, init_xanc_qubit_id=xid, init_ind=ind)


def union(lays):
    """One layout with the logical qubits of several."""
    from surface_sim.layouts import Layout

    d = lays[0].to_dict()
    for l in lays[1:]:
        e = l.to_dict()
        for k in ("layout", "logical_qubit_labels"):
            d[k] += e[k]
        for k in ("log_z", "log_x"):
            d[k].update(e[k])
    return Layout(d)


def mixed(l, seed, taken=(), order=True):
    """The same code with its qubits in another order, and with other labels, indices and orders of neighbours."""
    from surface_sim.layouts import Layout

    rng = random.Random(str(seed))
    d = l.to_dict()
    qs = d["layout"]
    if order:
        rng.shuffle(qs)
    n = len(qs)
    if taken or rng.random() < .6:
        style = rng.choice(["{}", "q{}", "D{}", "a-{}", "{} b"])
        new = {q["qubit"]: style.format(k) for q, k in zip(qs, rng.sample(range(100 * len(taken), 100 * len(taken) + 3 * n), n))}
        for q in qs:
            q["qubit"] = new[q["qubit"]]
            q["neighbors"] = {k: None if v is None else new[v] for k, v in q["neighbors"].items()}
        for t in ("log_z", "log_x"):
            d[t] = {k: [new[x] for x in v] for k, v in d[t].items()}
    if rng.random() < .6:
        lo = min(q["ind"] for q in qs)
        for q, k in zip(qs, rng.sample(range(lo, lo + n + rng.choice([0, 7])), n)):
            q["ind"] = k
    for q in qs:
        nb = list(q["neighbors"].items())
        rng.shuffle(nb)
        q["neighbors"] = dict(nb)
    for t in ("log_z", "log_x"):
        for v in d[t].values():
            rng.shuffle(v)
    return Layout(d)


LOG = {"rot": "surface_sim.log_gates.rot_surface_code_css", "unrot": "surface_sim.log_gates.unrot_surface_code_css"}


def loggates(fam):
    return importlib.import_module(LOG[fam])


def corners(lay):
    """Data qubits that have one X-type and one Z-type neighbour."""
    x, z = set(lay.get_qubits(stab_type="x_type")), set(lay.get_qubits(stab_type="z_type"))
    out = []
    for q in lay.get_qubits(role="data"):
        n = set(lay.get_neighbors([q]))
        if len(n) == 2 and len(n & x) == 1 and len(n & z) == 1:
            out.append(q)
    return out


def make_model(name, inds):
    from surface_sim import models as M
    from surface_sim.setup import CircuitNoiseSetup, Setup

    if name == "noiseless":
        return M.NoiselessModel(inds)
    s = CircuitNoiseSetup()
    s.set_var_param("prob", 0.001)
    if name == "circuit":
        return M.CircuitNoiseModel(s, inds)
    if name == "incoming":
        return M.IncomingNoiseModel(s, inds)
    if name == "phenom":
        return M.PhenomenologicalNoiseModel(s, inds)
    if name == "biased":
        d = s.to_dict()
        for p in d["setup"]:
            p["biased_pauli"] = "pauli"
            p["biased_factor"] = 0.5
        s = Setup(d)
        s.set_var_param("pauli", "Z")
        s.set_var_param("prob", 0.001)
        return M.BiasedCircuitNoiseModel(s, inds)
    raise KeyError(name)


def bits(qubits, spec):
    """spec: 0, 1 or ["seed", n]."""
    if spec in (0, 1):
        return {q: spec for q in qubits}
    r = random.Random(str(spec))
    return {q: r.randint(0, 1) for q in qubits}


class Built:
    pass


DEFAULTS = dict(rot_basis=False, gauge_detectors=True, anc_detectors=None, anc_reset=True, cnot_orientation="alternating")


def build(cfg, init=None, omit=False):
    """Build the experiment of cfg with the real code.  init overrides cfg["init"]; omit: leave
    out the options that have the value documented as default."""
    b = Built()
    v = cfg["v"]
    fam = MEM[v][1]
    g = cfg.get("gate")
    lk = cfg.get("lay", {})
    a = layout(fam, cfg["dz"], cfg["dx"], **lk)
    if cfg.get("mix"):
        a0, a = a, mixed(a, cfg["mix"], order=g != "cnot")  # set_trans_cnot searches in the order of the qubits
    b.layouts = [a]
    if g == "cnot":
        far = cfg.get("far", 40)
        ka = dict(label="L0", point=(1, 1), did=1, zid=1, xid=1, ind=0, **{})
        ka.update(lk)
        n = len(a.get_qubits(role="data"))
        c = layout(fam, cfg["dz"], cfg["dx"], label=ka["label"] + "b", point=(ka["point"][0] + far, ka["point"][1] + far),
                   did=ka["did"] + n, zid=ka["zid"] + n, xid=ka["xid"] + n, ind=a.get_max_ind() + cfg.get("gap", 1))
        if cfg.get("mix"):
            c = mixed(c, [cfg["mix"]], a.get_qubits(), order=False)
        b.layouts = [a, c]
        if cfg.get("flip"):
            b.layouts = [c, a]
    if g in ("s", "h"):
        cs = corners(a)
        if cfg.get("mix"):  # in the order of the generated layout
            at = {tuple(a.param("coords", q)): q for q in cs}
            cs = [at[tuple(a0.param("coords", q))] for q in corners(a0)]
        # the rotated code folds through its first corner only
        q = cs[cfg.get("corner", 0) % len(cs)] if fam == "unrot" else cs[0]
        getattr(loggates(fam), f"set_trans_{g}")(a, q)
        b.corner = q
    elif g == "cnot":
        x, y = b.layouts
        loggates(fam).set_trans_cnot(x, y)
        loggates(fam).set_trans_cnot(y, x)
    inds, ancs, coords, data = {}, [], {}, []
    for l in b.layouts:
        inds.update(l.qubit_inds())
        ancs += l.get_qubits(role="anc")
        coords.update(l.anc_coords())
        data += l.get_qubits(role="data")
    from surface_sim import Detectors

    b.inds, b.ancs, b.data, b.coords = inds, ancs, data, coords
    b.model = make_model(cfg.get("model", "noiseless"), inds)
    b.detectors = Detectors(ancs, frame=cfg.get("frame", "post-gate"), anc_coords=coords)
    b.init = bits(data, cfg.get("init", 0) if init is None else init)
    kw = dict(model=b.model, detectors=b.detectors, data_init=dict(b.init), rot_basis=cfg.get("rot", False),
              gauge_detectors=cfg.get("gauge", False), anc_detectors=cfg.get("anc_detectors"))
    if v != "rot_xzzx_google":
        kw["anc_reset"] = cfg.get("reset", True)
    if g == "cnot":
        kw["cnot_orientation"] = cfg["orient"]
    if omit:
        kw = {k: x for k, x in kw.items() if k not in DEFAULTS or x != DEFAULTS[k]}
    m = emod(v)
    if g is None:
        b.circuit = m.memory_experiment(layout=a, num_rounds=cfg["rounds"], **kw)
    elif g == "cnot":
        b.circuit = m.repeated_cnot_experiment(layout_c=b.layouts[0], layout_t=b.layouts[1], num_cnot_gates=cfg["ng"],
                                               num_rounds_per_gate=cfg["rounds"], **kw)
    else:
        b.circuit = getattr(m, f"repeated_{g}_experiment")(layout=a, num_rounds_per_gate=cfg["rounds"],
                                                           **{f"num_{g}_gates": cfg["ng"]}, **kw)
    return b


def rounds_of(cfg):
    return cfg["rounds"] if cfg.get("gate") is None else 1 + cfg["ng"] * cfg["rounds"]


LAYS = [{}, dict(label="Q", point=(-4, 7), did=11, zid=5, xid=8, ind=13), dict(point=(0.5, 2), ind=3),
        dict(label="logical", point=(-2.5, -6.5), did=0, zid=100, xid=3, ind=50)]


def memory_configs(rng, n, dists, max_rounds=5, gauge=(False,), frames=FRAMES, models=("noiseless",), inits=None):
    out = []
    vs = list(MEM)
    i = 0
    while len(out) < n:
        v = vs[i % len(vs)]
        i += 1
        dz, dx = dists[rng.randrange(len(dists))]
        google = v == "rot_xzzx_google"
        out.append(dict(v=v, dz=dz, dx=dx, rounds=rng.randint(1 if google else 0, max_rounds), rot=rng.random() < .5,
                        reset=True if google else rng.random() < .5, frame=rng.choice(frames),
                        gauge=rng.choice(gauge), model=rng.choice(models), lay=rng.choice(LAYS),
                        init=rng.choice(inits) if inits else rng.choice([0, 1, ["seed", rng.randrange(10 ** 6)]])))
        if i % 5 == 0:
            out[-1]["mix"] = i
    return out


def gate_configs(rng, n, small=3, max_ng=4, max_rounds=3, gauge=(False,), frames=("post-gate", "pre-gate"),
                 models=("noiseless",)):
    out = []
    i = 0
    while len(out) < n:
        v, g = GATES[i % len(GATES)]
        i += 1
        fam = MEM[v][1]
        if g == "cnot":
            dz, dx = rng.choice([(2, 2), (2, 3), (3, 2), (3, 3)] + ([(3, 4), (4, 3)] if small > 3 else []))
            ng = rng.randint(0, max_ng)
        else:
            d = rng.randint(2, small)
            dz, dx = (d + 1, d) if fam == "rot" else (d, d)
            ng = 2 * rng.randint(0, max_ng // 2)
        out.append(dict(v=v, gate=g, dz=dz, dx=dx, ng=ng, rounds=rng.randint(0, max_rounds), rot=rng.random() < .5,
                        reset=rng.random() < .5, frame=rng.choice(frames), gauge=rng.choice(gauge),
                        orient=rng.choice(["constant", "alternating"]), corner=rng.randrange(4), flip=rng.random() < .3,
                        model=rng.choice(models), lay=rng.choice(LAYS), gap=rng.choice([1, 4]), far=rng.choice([15, 40]),
                        init=rng.choice([0, 1, ["seed", rng.randrange(10 ** 6)]])))
        if i % 5 == 0:
            out[-1]["mix"] = i
    return out


def extreme_configs(rng, wide=((11, 2), (2, 11), (6, 6))):
    """Experiments that are long or wide: two-digit numbers of rounds, gates, rows, and many qubits."""
    out = []

    def more(**kw):
        out.append(dict(rot=rng.random() < .5, reset=rng.random() < .5, frame=rng.choice(FRAMES[:2] if "gate" in kw else FRAMES),
                        gauge=False, lay=rng.choice(LAYS), init=["seed", rng.randrange(10 ** 6)], model="noiseless") | kw)

    for v in MEM:
        kw = dict(reset=True) if "google" in v else {}
        more(v=v, dz=2, dx=2, rounds=rng.randint(11, 26), **kw)
        for dz, dx in wide:
            more(v=v, dz=dz, dx=dx, rounds=rng.randint(1, 2), **kw)
    for v, g in GATES:
        dz, dx = (3, 2) if g == "s" and v != "unrot_css" else (2, 2)
        kw = dict(v=v, gate=g, dz=dz, dx=dx, orient=rng.choice(["constant", "alternating"]), corner=rng.randrange(4))
        more(ng=12 - (g == "cnot"), rounds=1, **kw)
        more(ng=2, rounds=rng.randint(11, 14), **kw)
    return out
