"""Histories of calls to the real detector builder, recorded for specs/DetectorsTrace.tla."""
import json
import os
import random
import tempfile

import numpy as np
import stim

from vlib import CaseTimeout, Machinery, describe_exc, run_tlc

SIM = """SPECIFICATION SimSpec
CONSTANTS
    N = {n}
    MaxLen = {maxlen}
    MinLen = {minlen}
    Frame = "post-gate"
    Reset = TRUE
    Keep = TRUE
    Weight = 3
INVARIANTS Dump Physical TypeOK
CHECK_DEADLOCK FALSE
"""


def behaviours(num, n, maxlen, minlen, seed):
    fd, path = tempfile.mkstemp(prefix="dets_", suffix=".cfg")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(SIM.format(n=n, maxlen=maxlen, minlen=minlen))
        r = run_tlc("DetectorsModel", cfg=path, workers=1, expect_ok=False, timeout=600,
                    args=["-simulate", f"num={num}", "-depth", str(3 * maxlen), "-seed", str(seed)])
    finally:
        os.unlink(path)
    if r.violated or "rror:" in r.out:
        raise Machinery("DetectorsModel.tla simulation failed:\n" + r.out[-2000:])
    out = []
    for t in r.tuples("HIST"):
        out.append([o for o in json.loads(t[1]) if o["op"] != "err"])
    if not out:
        raise Machinery("no histories from DetectorsModel.tla")
    return out


class Unknown(Exception):
    pass


class Recorder:
    """Drives one real Detectors object.  labels[i] is ancilla i + 1."""

    def __init__(self, cfg):
        from surface_sim import Detectors

        self.cfg, self.n = cfg, cfg["n"]
        rng = random.Random(cfg["seed"])
        self.rng = rng
        self.labels = [f"{rng.choice('XZ')}{k + 1}" for k in range(self.n)]
        order = list(self.labels)
        rng.shuffle(order)
        self.coords = {a: [k, -k] for k, a in enumerate(self.labels)}
        self.d = Detectors(order, frame=cfg["frame"], anc_coords={a: self.coords[a] for a in order})
        self.num = {a: k + 1 for k, a in enumerate(self.labels)}
        self.log = {a: [] for a in self.labels}
        self.total = 0
        self.rec = []  # absolute index -> [q, k]
        self.ops = []

    def lab(self, i):
        return "nobody" if i == 0 else self.labels[i - 1]

    def measure(self, q, num):
        self.log.setdefault(q, []).append(self.total)
        self.rec.append([num, len(self.log[q])])
        self.total += 1

    def get_rec(self, q, rel):
        if rel >= 0 or -rel > len(self.log[q]):
            raise ValueError(f"no outcome {rel} of {q}")
        return stim.target_rec(self.log[q][rel] - self.total)

    def dets(self, circ):
        out = []
        for ins in circ.flattened():
            if ins.name != "DETECTOR":
                raise Unknown(f"{ins.name} in the detectors")
            c = ins.gate_args_copy()
            a = int(c[0]) + 1 if len(c) == 3 and 0 <= c[0] < self.n and c[1] == -c[0] else 0
            out.append(dict(a=a, t=int(2 * c[-1]), m=[self.rec[self.total + t.value] for t in ins.targets_copy()]))
        return out

    def attempt(self, op, fn):
        """Record the call; op gets "raised" and, for detectors, "dets"."""
        try:
            r = fn()
        except (Machinery, KeyboardInterrupt, CaseTimeout):
            raise
        except Exception as e:
            op["raised"], op["error"] = True, describe_exc(e)
            if op["op"] in ("round", "data"):
                op["dets"] = []
        else:
            op["raised"] = False
            if op["op"] in ("round", "data"):
                op["dets"] = self.dets(r)
        self.ops.append(op)
        return not op["raised"]

    def seq(self, ids):
        ids = list(ids)
        self.rng.shuffle(ids)
        labs = [self.lab(i) for i in ids]
        return self.rng.choice([labs, tuple(labs)]), ids

    def activate(self, ids):
        l, ids = self.seq(ids)
        self.attempt(dict(op="act", s=ids), lambda: self.d.activate_detectors(l))

    def deactivate(self, ids):
        l, ids = self.seq(ids)
        self.attempt(dict(op="deact", s=ids), lambda: self.d.deactivate_detectors(l))

    def gate(self, u, how=None, unknown=False):
        import xarray as xr

        how = how or self.rng.choice(["dict", "matrix"])
        op = dict(op="gate", u=[sorted(x) for x in u], unknown=unknown)
        if how == "dict":
            d = {}
            for a, f in enumerate(u):
                if set(f) != {a + 1} or self.rng.random() < .5:
                    f = list(f)
                    self.rng.shuffle(f)
                    d[self.labels[a]] = [self.lab(b) for b in f]
            if unknown:
                d["nobody"] = ["nobody"]
            items = list(d.items())
            self.rng.shuffle(items)
            d = dict(items)
            before = {k: list(v) for k, v in d.items()}
            self.attempt(op, lambda: self.d.update_from_dict(d))
            if d != before:
                raise Unknown("update_from_dict changed its argument")
        else:
            rows, cols = list(self.labels), list(self.labels)
            self.rng.shuffle(rows)
            self.rng.shuffle(cols)
            m = np.zeros((self.n, self.n), dtype=int)
            for a, f in enumerate(u):
                for b in f:
                    m[rows.index(self.labels[a]), cols.index(self.lab(b))] = 1
            if unknown:
                rows[0] = "nobody"
            x = xr.DataArray(m, coords=dict(new_stab_gen=rows, stab_gen=cols))
            if self.rng.random() < .5:
                x = x.transpose("stab_gen", "new_stab_gen")
            self.attempt(op, lambda: self.d.update(x))

    def round(self, active, sel=None, reset=None):
        ids = list(active)
        self.rng.shuffle(ids)
        saved = {a: list(v) for a, v in self.log.items()}, self.total, list(self.rec)
        for a in ids:
            self.measure(self.labels[a - 1], a)
        s = list(range(1, self.n + 1)) if sel is None else list(sel)
        arg = None if sel is None else self.rng.choice([list, tuple])(self.lab(a) for a in sel)
        ok = self.attempt(dict(op="round", sel=s),
                          lambda: self.d.build_from_anc(self.get_rec, self.cfg["reset"], anc_qubits=arg))
        if not ok:
            self.log, self.total, self.rec = saved
        return ok

    def data(self, ids, sel=None, support=None):
        ids = list(ids)
        self.rng.shuffle(ids)
        saved = {a: list(v) for a, v in self.log.items()}, self.total, list(self.rec)
        sup = support or {a: sorted(self.rng.sample(range(8), self.rng.randint(1, 4))) for a in ids}
        for q in range(8):
            self.measure(f"D{q}", 1001 + q)
        k = len(self.log["D0"])
        s = list(range(1, self.n + 1)) if sel is None else list(sel)
        arg = None if sel is None else [self.lab(a) for a in sel]
        anc_sup = {self.labels[a - 1]: [f"D{q}" for q in sup[a]] for a in ids}
        if self.rng.random() < .3:  # supports of other stabilizers may be given too
            for a in self.labels:
                anc_sup.setdefault(a, ["D0"])
        labs = [self.labels[a - 1] for a in ids]
        ok = self.attempt(dict(op="data", s=ids, sup=[[[1001 + q, k] for q in sup[a]] for a in ids], sel=s),
                          lambda: self.d.build_from_data(self.get_rec, anc_sup, anc_reset=self.cfg["reset"],
                                                         reconstructable_stabs=labs, anc_qubits=arg))
        if not ok:
            self.log, self.total, self.rec = saved
        return ok

    def new(self):
        self.log = {a: [] for a in self.labels}
        self.total, self.rec = 0, []
        self.attempt(dict(op="new"), self.d.new_circuit)

    def case(self, i):
        return dict(id=i, n=self.n, frame=self.cfg["frame"], reset=self.cfg["reset"],
                    ops=[{k: v for k, v in o.items() if k != "error"} for o in self.ops])


def replay(r, hist):
    """A history of DetectorsModel.tla on the real object."""
    act = set()
    for o in hist:
        if o["op"] == "act":
            r.activate(o["s"])
            act |= set(o["s"])
        elif o["op"] == "deact":
            r.deactivate(o["s"])
            act -= set(o["s"])
        elif o["op"] == "gate":
            r.gate(o["u"])
        elif o["op"] == "round":
            r.round(act, None if r.rng.random() < .8 else [a for a in range(1, r.n + 1) if r.rng.random() < .6])
        elif o["op"] == "data":
            r.data(o["s"], None if r.rng.random() < .8 else [a for a in range(1, r.n + 1) if r.rng.random() < .6])


# ---- larger random histories, legal by construction (and judged by the machine) ----
def invertible(u):
    rows = [set(x) for x in u]
    used = set()
    for k in range(len(rows)):
        piv = next((p for p in rows[k]), None)
        if piv is None:
            return False
        for j in range(len(rows)):
            if j != k and piv in rows[j] and j not in used:
                rows[j] ^= rows[k]
        used.add(k)
    return True


class Walk:
    """Python mirror of the guards only, to choose legal calls."""

    def __init__(self, n, rng):
        self.n, self.rng = n, rng
        self.act, self.spent = set(), set()
        self.gen = [{a} for a in range(1, n + 1)]

    def joined(self, s):
        s = set(s)
        while True:
            t = s | {a for a in range(1, self.n + 1) for b in s if a != b and (a in self.gen[b - 1] or b in self.gen[a - 1])}
            if t == s:
                return s
            s = t

    def random_gate(self, pool=None):
        rng, n = self.rng, self.n
        pool = sorted(self.act - self.spent) if pool is None else pool
        u = [{a} for a in range(1, n + 1)]
        if len(pool) < 2:
            return u
        kind = rng.random()
        if kind < .15:  # any invertible map on up to six of them
            sub = rng.sample(pool, min(len(pool), rng.randint(2, 6)))
            while True:
                for a in sub:
                    u[a - 1] = {b for b in sub if rng.random() < .5}
                if invertible(u):
                    return u
        elif kind < .4:  # disjoint pairs, as a transversal CNOT or S
            p = rng.sample(pool, len(pool) // 2 * 2)
            for a, b in zip(p[::2], p[1::2]):
                u[a - 1] = {a, b}
        elif kind < .5:  # permutation
            p = rng.sample(pool, len(pool))
            for a, b in zip(pool, p):
                u[a - 1] = {b}
        else:  # a random invertible map on some of them, by row operations
            sub = rng.sample(pool, rng.randint(2, len(pool)))
            for _ in range(rng.randint(1, 3 * len(sub))):
                a, b = rng.sample(sub, 2)
                if rng.random() < .2:
                    u[a - 1], u[b - 1] = u[b - 1], u[a - 1]
                else:
                    u[a - 1] = u[a - 1] ^ u[b - 1]
        return u

    def apply(self, u):
        new = []
        for x in u:
            s = set()
            for b in x:
                s ^= self.gen[b - 1]
            new.append(s)
        self.gen = new

    def forget(self, s):
        for a in s:
            self.gen[a - 1] = {a}


def random_history(r, length, invalid=0.0):
    rng = r.rng
    w = Walk(r.n, rng)
    while len(r.ops) < length:
        if rng.random() < invalid:
            invalid_call(r, w)
            continue
        op = rng.choice(["act", "gate", "gate", "gate", "round", "round", "round", "deact", "data", "new"])
        off = sorted(set(range(1, r.n + 1)) - w.act)
        if op == "act" and off:
            s = rng.sample(off, rng.randint(1, len(off)))
            r.activate(s)
            w.act |= set(s)
        elif op == "gate" and w.act:
            u = w.random_gate()
            r.gate(u)
            w.apply(u)
        elif op == "round" and w.act and not w.spent:
            if not r.round(w.act, None if rng.random() < .8 else rng.sample(range(1, r.n + 1), rng.randint(0, r.n))):
                break
            w.forget(range(1, r.n + 1))
        elif op == "deact" and w.act:
            s = set(w.spent) or set(rng.sample(sorted(w.act), rng.randint(1, len(w.act))))
            s = w.joined(s) if rng.random() < .5 else s
            if w.joined(s) != s or not s <= w.act:
                continue
            r.deactivate(s)
            w.act -= s
            w.spent -= s
            w.forget(s)
        elif op == "data" and w.act and rng.random() < .6:
            pool = sorted(w.act - w.spent)
            if not pool:
                continue
            s = rng.sample(pool, rng.randint(1, len(pool)))
            if w.joined(s) & w.spent:
                continue
            if not r.data(s):
                break
            w.spent |= w.joined(s)
        elif op == "new" and rng.random() < .15:
            r.new()
            w = Walk(r.n, rng)


def sum_of(s, u):
    out = set()
    for x in s:
        out ^= u[x - 1]
    return out


def invalid_call(r, w):
    """A call that has to be rejected without a trace."""
    import xarray as xr

    rng, d = r.rng, r.d
    off = sorted(set(range(1, r.n + 1)) - w.act)
    on = sorted(w.act)
    k = rng.randrange(15)
    if k == 0:
        r.activate(rng.sample(off, rng.randint(0, len(off))) + [0])
    elif k == 1 and on:
        r.activate(rng.sample(off, rng.randint(0, len(off))) + rng.sample(on, 1))
    elif k == 2:
        r.deactivate(rng.sample(on, rng.randint(0, len(on))) + [0])
    elif k == 3 and off:
        r.deactivate(rng.sample(on, rng.randint(0, len(on))) + rng.sample(off, 1))
    elif k in (4, 5) and len(on) >= 2:
        u = w.random_gate(on)
        a, b = rng.sample(on, 2)
        u[a - 1] = rng.choice([set(), set(u[b - 1]), sum_of(rng.sample([x for x in on if x != a], rng.randint(1, len(on) - 1)), u)])
        if rng.random() < .3:  # any map on them that is not invertible
            for _ in range(100):
                v = [{x} for x in range(1, r.n + 1)]
                for x in on:
                    v[x - 1] = {y for y in on if rng.random() < .5}
                if not invertible(v):
                    u = v
                    break
        r.gate(u)
    elif k == 6:
        r.gate(w.random_gate(on), unknown=True)
    elif k == 7 and not w.spent:
        r.round(w.act, rng.sample(range(1, r.n + 1), rng.randint(0, r.n)) + [0])
    elif k == 8 and on and not w.spent:
        r.data(rng.sample(on, 1), [0])
    elif k == 9:
        bad = rng.choice([None, 3, 1.5])
        r.attempt(dict(op="bad"), lambda: d.activate_detectors(bad))
    elif k == 10:
        bad = rng.choice([None, 3, 1.5])
        r.attempt(dict(op="bad"), lambda: d.deactivate_detectors(bad))
    elif k == 11:
        bad = rng.choice([None, [], "x", np.identity(r.n, dtype=int), {r.labels[0]: 3}, {0: [0]}])
        r.attempt(dict(op="bad"), lambda: d.update_from_dict(bad))
    elif k == 12:
        n = r.n
        bad = rng.choice([
            None, np.identity(n, dtype=int),
            xr.DataArray(np.identity(n, dtype=int), coords=dict(new=r.labels, stab_gen=r.labels)),
            xr.DataArray(np.identity(n - 1, dtype=int), coords=dict(new_stab_gen=r.labels[1:], stab_gen=r.labels[1:])),
            xr.DataArray(np.identity(n + 1, dtype=int), coords=dict(new_stab_gen=r.labels + ["e"], stab_gen=r.labels + ["e"])),
            xr.DataArray(np.zeros((n, n), dtype=int), coords=dict(new_stab_gen=r.labels, stab_gen=r.labels)),
        ])
        r.attempt(dict(op="bad"), lambda: d.update(bad))
    elif k == 13:
        sup = {r.labels[0]: ["D0"]}
        fn = rng.choice([
            lambda: d.build_from_anc(None, True), lambda: d.build_from_anc(r.get_rec, True, anc_qubits=3),
            lambda: d.build_from_data(3, sup, True, [r.labels[0]]),
            lambda: d.build_from_data(r.get_rec, [r.labels[0]], True, [r.labels[0]]),
            lambda: d.build_from_data(r.get_rec, sup, True, 7),
            lambda: d.build_from_data(r.get_rec, sup, True, [r.labels[0], "nobody"]),
            lambda: d.build_from_data(r.get_rec, sup, True, [r.labels[0]], anc_qubits=1),
        ])
        r.attempt(dict(op="bad"), fn)
    elif k == 14 and on:  # the outcomes are not available

        def nothing(*a):
            raise ValueError("no such outcome")

        if rng.random() < .5:
            r.attempt(dict(op="bad"), lambda: d.build_from_anc(nothing, r.cfg["reset"]))
        else:
            a = r.labels[rng.choice(on) - 1]
            r.attempt(dict(op="bad"), lambda: d.build_from_data(nothing, {a: ["D0"]}, r.cfg["reset"], [a]))
