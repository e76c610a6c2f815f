"""Programs of public building blocks on several codes: the behaviours of
specs/Program.tla replayed into the real code."""
import json
import random

import stim

import enc, expcheck, zoo
from vlib import Machinery, run_tlc

# variant -> gates that specs/Program.tla may use, and the sizes for which they exist
SETS = {
    "rot_s": dict(vs=["rot_css", "rot_css_pipe"], gates=["cnot", "s"], sizes=[(3, 2)], same=True),
    "rot_s2": dict(vs=["rot_css", "rot_css_pipe"], gates=["s"], sizes=[(3, 2), (4, 3), (5, 4)], same=False),
    "rot_c": dict(vs=["rot_css", "rot_css_pipe"], gates=["cnot"], sizes=[(2, 2), (3, 3), (2, 3)], same=True),
    "unrot": dict(vs=["unrot_css"], gates=["cnot", "s", "h"], sizes=[(2, 2), (3, 3)], same=True),
    "none": dict(vs=["rot_xzzx", "rot_xzzx_pipe", "rot_xzzx", "rot_xzzx_pipe", "rot_css", "unrot_css"], gates=[],
                 sizes=[(2, 2), (3, 3), (2, 3), (4, 3), (3, 4)], same=False),
}
CFG = """SPECIFICATION SimSpec
CONSTANTS
    NCodes = {n}
    MaxLen = {maxlen}
    MinLen = {minlen}
    RoundWeight = {weight}
    Gates = {gates}
INVARIANTS Dump
CHECK_DEADLOCK FALSE
"""


def behaviours(num, gates, n=3, maxlen=12, minlen=6, weight=12, seed=1):
    """Behaviours of specs/Program.tla, drawn by TLC's simulator."""
    import os, tempfile

    fd, path = tempfile.mkstemp(prefix="prog_", suffix=".cfg")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(CFG.format(n=n, maxlen=maxlen, minlen=minlen, weight=weight,
                               gates="{" + ", ".join(f'"{g}"' for g in gates) + "}"))
        r = run_tlc("Program", cfg=path, workers=1, expect_ok=False, timeout=300,
                    args=["-simulate", f"num={num}", "-depth", str(maxlen + 2), "-seed", str(seed)])
    finally:
        os.unlink(path)
    if r.violated or "rror:" in r.out:
        raise Machinery("Program.tla simulation failed:\n" + r.out[-2000:])
    out = [json.loads(t[1]) for t in r.tuples("PROG")]
    if not out:
        raise Machinery("no behaviours from Program.tla:\n" + r.out[-2000:])
    return out


class Codes:
    """Several codes sharing one model and one detector tracker."""

    def __init__(self, cfg):
        from surface_sim import Detectors

        self.cfg, self.v = cfg, cfg["v"]
        fam = zoo.MEM[self.v][1]
        self.fam = fam
        self.layouts, did, aid, ind, taken, cs = [], 1, 1, cfg.get("ind", 0), [], []
        for k, size in enumerate(cfg["sizes"]):
            parts = []
            # a pair of sizes: one layout with two logical qubits
            for j, (dz, dx) in enumerate(size if isinstance(size[0], (list, tuple)) else [size]):
                l = zoo.layout(fam, dz, dx, label=f"L{k}" + "'" * j, point=(1 + 40 * k, 1 - 40 * k - 500 * j), did=did, zid=aid,
                               xid=aid, ind=ind)
                cs.append([tuple(l.param("coords", q)) for q in zoo.corners(l)])
                if cfg.get("mix"):
                    l = zoo.mixed(l, cfg["mix"] + k + j, taken, order="cnot" not in cfg.get("gates", []))
                    taken += l.get_qubits()
                did += len(l.get_qubits(role="data"))
                aid += len(l.get_qubits(role="anc"))
                ind = l.get_max_ind() + 1 + cfg.get("gap", 0)
                parts.append(l)
            self.layouts.append(parts[0] if len(parts) == 1 else zoo.union(parts))
        lg = zoo.loggates(fam)
        gates = cfg.get("gates", [])
        for k, l in enumerate(self.layouts):
            if not {"s", "h"} & set(gates):
                break
            at = {tuple(l.param("coords", q)): q for q in zoo.corners(l)}  # in the order of the generated layout
            q = at[cs[k][cfg.get("corner", 0) % len(cs[k])] if fam == "unrot" else cs[k][0]]
            if "s" in gates:
                lg.set_trans_s(l, q)
            if "h" in gates:
                lg.set_trans_h(l, q)
        self.cnots = set()
        self.inds, self.ancs, self.coords, self.data, self.owner = {}, [], {}, [], {}
        for k, l in enumerate(self.layouts):
            self.inds.update(l.qubit_inds())
            self.ancs += l.get_qubits(role="anc")
            self.coords.update(l.anc_coords())
            self.data += l.get_qubits(role="data")
            for t in ("x_type", "z_type"):
                for a in l.get_qubits(role="anc", stab_type=t):
                    self.owner[a] = [k + 1, t[0].upper()]
        if cfg.get("shuffle"):
            random.Random(cfg["shuffle"]).shuffle(self.ancs)
        self.reset = cfg.get("reset", True)
        self.model = zoo.make_model(cfg.get("model", "noiseless"), self.inds)
        self.detectors = Detectors(self.ancs, frame=cfg.get("frame", "post-gate"),
                                   anc_coords={a: self.coords[a] for a in self.ancs})
        self.blk = zoo.bmod(self.v)
        self.by_xy = {tuple(c): a for a, c in self.coords.items()}
        self.init = {}
        self.lent = []  # containers given to the code

    def lend(self, x):
        self.lent.append((x, repr(x)))
        return x

    def intact(self):
        return all(repr(x) == was for x, was in self.lent)

    def op(self, k, b):
        l = self.layouts[k]
        return (l.log_x if b == "X" else l.log_z)[l.get_logical_qubits()[0]]

    def bitstring(self, k, b, v, rnd=None):
        """Bits for basis b with logical value v: the other logical operator, or random."""
        data = self.layouts[k].get_qubits(role="data")
        sup = self.op(k, b)
        if rnd is None:
            other = self.op(k, "Z" if b == "X" else "X")
            return {q: int(v and q in other) for q in data}
        bits = {q: rnd.randint(0, 1) for q in data}
        if sum(bits[q] for q in sup) % 2 != v:
            bits[sup[0]] ^= 1
        return bits

    def options(self, **kw):
        """With cfg["omit"], options with the value documented as default are left out."""
        if self.cfg.get("omit"):
            kw = {k: x for k, x in kw.items() if x != zoo.DEFAULTS[k]}
        return kw

    def start(self):
        self.model.new_circuit()
        self.detectors.new_circuit()

    def init_code(self, k, b, bits):
        self.init.update(bits)
        return self.blk.init_qubits(self.model, self.layouts[k], self.detectors, self.lend(dict(bits)),
                                   **self.options(rot_basis=b == "X"))

    def round(self, ks, anc_detectors=None):
        from surface_sim.util import merge_qec_rounds

        ks = list(ks)
        if len(ks) == 1 and not self.cfg.get("always_merge"):
            return self.blk.qec_round(self.model, self.layouts[ks[0]], self.detectors,
                                      **self.options(anc_reset=self.reset, anc_detectors=anc_detectors))
        return merge_qec_rounds(self.blk.qec_round_iterator, self.model, self.lend([self.layouts[k] for k in ks]),
                                self.detectors, **self.options(anc_reset=self.reset, anc_detectors=anc_detectors))

    def gate(self, g, k, t=None):
        import surface_sim.circuit_blocks.util as u

        l = self.layouts[k]
        if g in ("x", "z"):
            return getattr(self.blk, f"log_{g}")(self.model, l, self.detectors)
        if g == "cnot":
            if (k, t) not in self.cnots:  # set up on demand: the library searches for isomorphisms
                zoo.loggates(self.fam).set_trans_cnot(l, self.layouts[t])
                self.cnots.add((k, t))
            return u.log_trans_cnot(self.model, l, self.layouts[t], self.detectors)
        return getattr(u, f"log_trans_{g}")(self.model, l, self.detectors)

    def meas(self, k, b, anc_detectors=None):
        return self.blk.log_meas(self.model, self.layouts[k], self.detectors,
                                 **self.options(rot_basis=b == "X", anc_reset=self.reset, anc_detectors=anc_detectors))

    def measall(self, ks, bases, anc_detectors=None):
        from surface_sim.util import merge_log_meas

        return merge_log_meas(self.blk.log_meas_iterator, self.model, self.lend([self.layouts[k] for k in ks]), self.detectors,
                              self.lend([b == "X" for b in bases]), **self.options(anc_reset=self.reset, anc_detectors=anc_detectors))


def get(x, k):
    """Element of a TLA+ function printed as JSON (sequence or object)."""
    return x[k - 1] if isinstance(x, list) else x[str(k)]


def replay(cfg, hist, before=None):
    """Replay a behaviour (before: called with the codes and the step number before every step).
    Returns (Codes, Enc, steps): per step the first instruction, and the ranges of detectors and
    observables it emitted."""
    c = Codes(cfg)
    c.start()
    e, steps = enc.Enc(), []
    for _ in stepper(c, hist, e, steps, before):
        pass
    return c, e, steps


def stepper(c, hist, e, steps, before=None):
    """Replay a behaviour on the codes c, one step at a time."""
    cfg = c.cfg
    rnd = random.Random(cfg.get("seed", 0))
    for n, st in enumerate(hist):
        if before is not None:
            before(c, n)
        op = st["op"]
        who = [st["k"] - 1] if "k" in st else None
        i0, d0, o0, m0 = len(e.instr), len(e.dets), len(e.obs_list), e.num_meas
        if op == "init":
            circ = c.init_code(st["k"] - 1, st["b"], c.bitstring(st["k"] - 1, st["b"], st["v"], rnd if st["r"] else None))
        elif op == "round":
            ks = [k - 1 for k in st["on"]]
            if cfg.get("shuffle"):
                rnd.shuffle(ks)
            who = ks
            circ = c.round(ks)
        elif op == "meas":
            circ = c.meas(st["k"] - 1, st["b"])
        elif op == "measall":
            ks = [k - 1 for k in st["on"]]
            if cfg.get("shuffle"):
                rnd.shuffle(ks)
            circ = c.measall(ks, [get(st["b"], k + 1) for k in ks])
            who = ks
            st = dict(st, order=ks)
        else:
            who = [st["k"] - 1] + ([st["t"] - 1] if op == "cnot" else [])
            circ = c.gate(op, st["k"] - 1, st.get("t", 1) - 1)
        if not isinstance(circ, stim.Circuit):
            raise TypeError(f"{op} returned {type(circ).__name__}")
        e.feed(circ)
        steps.append(dict(st=st, i0=i0, dets=(d0, len(e.dets)), obs=(o0, len(e.obs_list)), meas=(m0, e.num_meas),
                          circ=circ, who=who))
        yield


def products(cfg, c, e, steps):
    """What specs/Program.tla promises, as products for specs/CircuitTrace.tla."""
    prods, what = [], []
    hq = [c.inds[q] for q in c.data]
    last = 0  # first instruction of the last round
    for n, s in enumerate(steps):
        st, op = s["st"], s["st"]["op"]
        for d in e.dets[slice(*s["dets"])]:
            a = c.by_xy.get(tuple(d[2][:-1]))
            own = c.owner.get(a)
            if a is None:
                kind = "det"
            elif op == "round":
                kind = "det" if own in st["pre" if cfg["frame"] == "pre-gate" else "post"] else "free"
                if not d[1]:
                    kind = "det"
            elif op == "meas":
                kind = "det" if st["det"] or own != [st["k"], st["b"]] else "free"
            else:
                kind = "det" if own[0] in st["det"] else "free"
            prods.append(e.prod(m=d[0], kind=kind, hz=last + 1 if last else 0, hq=hq))
            what.append([n, op, "detector", a])
        for j, (idx, raw) in enumerate(e.obs_list[slice(*s["obs"])]):
            if op == "meas":
                kind, v = st["obs"], st["val"]
            else:
                k = st["order"][idx] + 1 if idx < len(st["order"]) else st["order"][0] + 1
                kind, v = get(st["obs"], k), get(st["val"], k)
            prods.append(e.prod(m=enc.odd(raw), kind=kind, v=v))
            what.append([n, op, "observable", idx])
        if op == "round":
            last = s["i0"]
    return prods, what


def prog_cfg(rng, which, n=3):
    s = SETS[which]
    small = [x for x in s["sizes"] if n <= 3 or x[0] * x[1] < 9] or s["sizes"][:1]
    sizes = [rng.choice(small)] * n if s["same"] else [rng.choice(small) for _ in range(n)]
    return dict(v=rng.choice(s["vs"]), sizes=sizes, mix=rng.choice([0, 0, 0, 1]) * n, gates=s["gates"], frame=rng.choice(["post-gate", "pre-gate"]),
                reset=rng.random() < .5, corner=rng.randrange(4), seed=rng.randrange(10 ** 6), gap=rng.choice([0, 2]),
                shuffle=rng.choice([0, 0, 3]), always_merge=rng.random() < .3, omit=rng.random() < .3,
                model=rng.choice(["noiseless", "noiseless", "circuit", "phenom", "incoming"]))


def merged_cfg(rng, pairs=0.0):
    """Parallel preparation and read-out of several codes, for C10/C15 (pairs: how often one
    layout has two logical qubits)."""
    which = rng.choice(["none", "none", "unrot", "rot_c"])
    c = prog_cfg(rng, which)
    n = rng.randint(1, 4)
    c["sizes"] = [rng.choice([(2, 2), (2, 3), (3, 2), (3, 3)]) for _ in range(n)]
    if rng.random() < pairs:
        c["sizes"][rng.randrange(n)] = [rng.choice([(2, 2), (2, 3), (3, 2)]) for _ in range(2)]
    c["gates"] = []
    c["rounds"] = rng.randint(0, 2)
    c["bases"] = [rng.choice("XZ") for _ in range(n)]
    c["order"] = rng.sample(range(n), n)
    return c
