"""Cases for specs/CircuitTrace.tla from the public experiments (C03, C15, C18)."""
import enc
import zoo


def rot_sublattice(lay):
    """Data qubits that the XZZX variants rotate for Z-type stabilizers."""
    z = lay.get_qubits(role="anc", stab_type="z_type")
    s = set()
    for d in ("north_west", "south_east"):
        s |= set(lay.get_neighbors(z, direction=d))
    return s


def prog_of(cfg, b):
    """The logical program of an experiment, for specs/LogicalTrack.tla."""
    basis = "X" if cfg.get("rot") else "Z"
    sups = []
    for l in b.layouts:
        op = l.log_x if basis == "X" else l.log_z
        sups.append([b.inds[q] for q in op[l.get_logical_qubits()[0]]])
    gates = []
    for k in range(cfg.get("ng", 0)):
        if cfg["gate"] == "cnot":
            swap = cfg["orient"] == "alternating" and k % 2 == 1
            gates.append(dict(g="cnot", a=2 if swap else 1, b=1 if swap else 2))
        else:
            gates.append(dict(g=cfg["gate"], a=1, b=1))
    return dict(basis=basis, sups=sups, init=[b.inds[q] for q, v in b.init.items() if v], gates=gates)


def first_round(det, cfg):
    return det[2][-1] == 0


def type_of(b):
    t = {}
    for l in b.layouts:
        for s in ("x_type", "z_type"):
            for a in l.get_qubits(role="anc", stab_type=s):
                t[a] = s
    return t


def det_anc(b, det):
    xy = tuple(det[2][:-1])
    for a, c in b.coords.items():
        if tuple(c) == xy:
            return a
    return None


def determinism_prods(cfg, b, e):
    """One product per detector: deterministic, unless it is a first-round gauge one."""
    types = type_of(b)
    own = "x_type" if cfg.get("rot") else "z_type"
    sup = {a: l.get_neighbors([a]) for l in b.layouts for a in l.get_qubits(role="anc")}
    plain = cfg.get("gate") is None and cfg["v"] != "rot_xzzx_google"
    prods = []
    for det in e.dets:
        t = det[2][-1] if det[2] else None
        anc = det_anc(b, det)
        kind, fz, v = "det", (), 0
        if anc is None or t is None:
            kind = "det"
        elif t == 0 and types[anc] != own:
            kind = "free" if cfg.get("gauge") else "det"
        elif plain and det[1] and t in (0, -0.5):
            # compares with the initialisation
            kind, fz = "init", [b.inds[q] for q in sup[anc]]
        elif plain:
            kind = "val"
        prods.append(e.prod(m=det[0], kind=kind, fz=fz, v=v))
    return prods


def shift(instr, off, k0):
    out = []
    for i in instr:
        t = [[q + off for q in p] if isinstance(p, list) else p + off for p in i["t"]]
        out.append(dict(op=i["op"], t=t, b=i["b"], k=i["k"] + k0))
    return out


class Ops:
    """Stabilizers and logical operators of a layout as (x, z) sets of indices,
    in the local basis of the variant (sub: the rotated sublattice)."""

    def __init__(self, lay, xzzx=False):
        inds = lay.qubit_inds()
        sub = {inds[q] for q in rot_sublattice(lay)} if xzzx else set()

        def op(t, qs):
            s = {inds[q] for q in qs}
            return (s - sub, s & sub) if t == "X" else (s & sub, s - sub)

        self.stabs, self.type = {}, {}
        for t in "XZ":
            for a in lay.get_qubits(role="anc", stab_type=t.lower() + "_type"):
                self.stabs[a] = op(t, lay.get_neighbors([a]))
                self.type[a] = t
        lab = lay.get_logical_qubits()[0]
        self.log = {"X": op("X", lay.log_x[lab]), "Z": op("Z", lay.log_z[lab])}


def xor_ops(ops):
    x, z = set(), set()
    for a, b in ops:
        x ^= a
        z ^= b
    return x, z


def decompose(op, gens):
    """Indices of the gens whose product is op (up to phase), or None."""
    basis = []  # (pivot, set of elements, set of indices)
    enc_ = lambda o: {("x", q) for q in o[0]} | {("z", q) for q in o[1]}

    def reduce(v, idx):
        for p, w, i in basis:
            if p in v:
                v, idx = v ^ w, idx ^ i
        return v, idx

    for k, g in enumerate(gens):
        v, idx = reduce(enc_(g), {k})
        if v:
            basis.append((min(v), v, idx))
    v, idx = reduce(enc_(op), set())
    return None if v else sorted(idx)
