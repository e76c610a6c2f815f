"""C08: noise models add exactly their documented noise to the ideal operation."""
import math
import random

import noise
from noise import GATES, KINDS, MEAS, NONE, PAIRS, SQ, TQ, attempt, num, strip, var
from vlib import call, main, pmap, run_tlc, validate

LABELS = ["D1", "D2", "X1", "Z1", "a", "q 7"]
FREE = ["u", "w", "prob"]
PROBS = SQ + TQ + ["sq_error_prob", "tq_error_prob", "assign_error_prob"]


def real(p, n):
    """The value that the code gets for the integer of the specification."""
    if p in ("T1", "T2"):
        return n / math.log(2)
    if p == "biased_factor":
        return n / 64
    if p == "assign_error_flag":
        return bool(n)
    return n / 2 ** 20


class Rec:
    def __init__(self, kind, seed):
        self.rng = r = random.Random(seed)
        self.kind = kind
        self.labels = r.sample(LABELS, r.randint(2, 5))
        self.inds = dict(zip(self.labels, r.sample(range(30), len(self.labels))))
        self.names = {i: q for q, i in self.inds.items()}
        self.dur = {d: r.choice([16, 32]) for d in noise.DUR}
        self.ops = []
        self.hole = r.random() < .25  # some parameters may be missing or unset
        self.load()

    def value(self, p, allow_var=True):
        """(real value, specification value)"""
        r = self.rng
        if p == "biased_pauli":
            x = r.choice(["pauli", "pauli2"])
            return x, var(x)
        if p == "biased_factor":
            n = r.choice([0, 16, 32, 64, 64, 96, 128, 512])
        elif p in ("T1", "T2"):
            if r.random() < .2 and allow_var:
                return p.lower(), var(p.lower())
            n = 4 if p == "T1" else r.choice([4, 2])
            n = n * r.choice([1, 2]) if p == "T1" else n
        elif p == "assign_error_flag":
            n = r.randrange(2)
        else:
            if r.random() < .3 and allow_var:
                x = r.choice(FREE)
                return x, var(x)
            n = r.choice([0, 1000, r.randint(1, 2 ** 17), r.randint(1, 2 ** 17)])
        return real(p, n), num(n)

    def load(self):
        from surface_sim import Setup

        r = self.rng
        dicts, spec = [], []

        def add(q, ps):
            d, l = {}, []
            for p in ps:
                v, a = self.value(p)
                d[p] = v
                l.append(dict(p=p, v=a))
            if len(q) == 1:
                d["qubit"] = q[0]
            elif q:
                d["qubits"] = list(q)
            dicts.append(d)
            spec.append(dict(q=list(q), p=l))

        base = ["sq_error_prob", "tq_error_prob", "assign_error_prob", "assign_error_flag", "biased_pauli", "biased_factor",
                "T1", "T2"]
        if self.hole:
            base = [p for p in base if r.random() < .8] or ["T1"]
        add((), base + r.sample(SQ + TQ, r.randint(0, 6)))
        for q in self.labels:
            if r.random() < .6:
                add((q,), r.sample(SQ + ["sq_error_prob", "assign_error_flag", "assign_error_prob", "biased_pauli",
                                         "biased_factor", "T1", "T2"], r.randint(1, 6)))
        done = set()
        for _ in range(r.randint(0, 4)):
            q = tuple(r.sample(self.labels, 2))
            if q not in done:
                done.add(q)
                add(q, r.sample(TQ + ["tq_error_prob", "biased_pauli", "biased_factor"], r.randint(1, 4)))
        op = dict(op="load", dicts=spec)
        self.ops.append(op)
        s = dict(setup=dicts, gate_durations={d: float(t) for d, t in self.dur.items()})
        self.s = attempt(op, lambda: Setup(s))
        for x in FREE + ["pauli", "pauli2", "t1", "t2"]:
            if not (self.hole and r.random() < .15):
                self.setvar(x)
        self.m = noise.model(self.kind, self.s, dict(self.inds))

    def setvar(self, x):
        r = self.rng
        if x.startswith("pauli"):
            v = r.choice("XYZ")
            a = dict(k="str", n=0, s=v)
        elif x in ("t1", "t2"):
            v, a = self.value(x.upper(), False)
        else:
            n = r.randint(0, 2 ** 17)
            v, a = n / 2 ** 20, num(n)
        op = dict(op="var", x=x, v=a)
        self.ops.append(op)
        attempt(op, lambda: self.s.set_var_param(x, v))

    def setparam(self):
        r = self.rng
        q = r.choice([(), (r.choice(self.labels),), tuple(r.sample(self.labels, 2))])
        if len(q) == 2:
            p = r.choice(TQ + ["tq_error_prob", "biased_pauli", "biased_factor"])
        else:
            p = r.choice(PROBS + ["biased_pauli", "biased_factor", "T1", "T2", "assign_error_flag"])
        v, a = self.value(p)
        op = dict(op="param", p=p, v=a, q=list(q))
        self.ops.append(op)
        attempt(op, lambda: self.s.set_param(p, v, *q))

    def call(self, g):
        r = self.rng
        n = len(self.labels)
        k = r.choice([0, 1, n, r.randint(0, n)])
        if g in PAIRS:
            k -= k % 2
        q = r.sample(self.labels, k)
        t = r.choice([16, 32])
        a = (float(t),) if g == "idle" and noise.timed_idle(self.kind) else ()
        tq = [[q[i], q[i + 1]] for i in range(0, k, 2)] if g in PAIRS else [[x] for x in q]
        op = dict(op="call", g=g, q=tq, t=t, ev=[])
        self.ops.append(op)
        arg = r.choice([list, tuple])(q)
        circ = attempt(op, lambda: getattr(self.m, GATES[g])(arg, *a))
        if not op["raised"]:
            op["ev"] = noise.events(circ, self.names)

    def run(self, n):
        gs = [g for g in GATES if noise.supports(self.kind, g)]
        for g in gs:
            self.call(g)
        for _ in range(n):
            k = self.rng.random()
            if k < .25:
                self.setparam()
            elif k < .4:
                self.setvar(self.rng.choice(FREE + ["pauli", "t1", "t2"]))
            elif k < .45:
                self.m.new_circuit()
            else:
                self.call(self.rng.choice(gs))


def one(arg):
    i, kind, seed, n = arg

    def f():
        r = Rec(kind, seed)
        r.run(n)
        return r.ops, r.dur

    return call(f, 60)


def body(c):
    r = run_tlc("NoiseOpsModel", workers=2)
    c.stats(dict(states=r.distinct, transitions=r.generated, traces=0))
    n, length = (6000, 60) if c.thorough else (800, 25)
    jobs = [(KINDS[k % 8], c.seed * 104729 + k) for k in range(n)]
    res = pmap(one, [(i, *j, length) for i, j in enumerate(jobs)], chunksize=8)
    cases = []
    for i, (x, err) in enumerate(res):
        if err:
            c.violation("raised", dict(model=jobs[i][0], seed=jobs[i][1], error=err))
        else:
            cases.append(dict(id=i, kind=jobs[i][0], ops=strip(x[0]), dur=x[1]))
    for k in range(0, len(cases), 1000):
        bad, st = validate("NoiseOpsTrace", cases[k:k + 1000], timeout=3000)
        c.stats(st)
        for i, (at, clause) in bad.items():
            c.violation(clause, dict(model=jobs[i][0], seed=jobs[i][1], failing_call=res[i][0][0][at - 1]))
    calls = [o for x in cases for o in x["ops"] if o["op"] == "call"]
    c.count("operations_judged", len(calls))
    c.count("rejected_operations", sum(o["raised"] for o in calls))
    c.count("channels_judged", sum(e["e"] == "ch" for o in calls for e in o["ev"]))
    c.sample(dict(model=jobs[1][0], call=next(o for o in calls if o["ev"])))
    c.assumptions += ["probabilities are compared at a resolution of 6e-8 (1/D of it for biased channels)",
                      "decoherence times are chosen so that exp(-t/T) is a power of two",
                      "the qubits of one operation are distinct"]


if __name__ == "__main__":
    import sys
    sys.exit(main("C08", body))
