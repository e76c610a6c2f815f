"""C01: relative measurement references resolve to the requested outcome."""
import json
import random
from concurrent.futures import ThreadPoolExecutor

import insitu
import noise
from noise import attempt, strip
from vlib import Machinery, call, main, pmap, run_tlc, validate

LABELS = ["D1", "D2", "X1", "Z1", "a", "q 7", "5"]


def measurements(circ, names):
    """<<qubit, basis>> of every outcome of a real circuit, in order."""
    from enc import ALIAS, Enc

    e = Enc(circ)
    return [[names.get(q, f"index {q}"), b] for q, b, _ in e.meas]


class Rec:
    def __init__(self, kind, seed):
        self.rng = r = random.Random(seed)
        n = r.randint(2, len(LABELS))
        self.labels = r.sample(LABELS, n)
        self.inds = dict(zip(self.labels, r.sample(range(40), n)))
        self.names = {i: q for q, i in self.inds.items()}
        self.setup = noise.full_setup(r, self.labels)
        self.kind = kind
        self.m = noise.model(kind, self.setup, dict(self.inds))
        self.ops = []

    def lst(self, l):
        l = list(l)
        k = self.rng.randrange(4)
        return [l, tuple(l), dict.fromkeys(l) if len(set(l)) == len(l) else l, list(l)][k]

    def meas(self, q, b):
        r = self.rng
        f = {"X": "measure_x", "Y": "measure_y", "Z": r.choice(["measure", "measure_z"])}[b]
        op = dict(op="meas", q=list(q), b=b, emit=[])
        self.ops.append(op)
        circ = attempt(op, lambda: getattr(self.m, f)(self.lst(q)))
        if not op["raised"]:
            op["emit"] = measurements(circ, self.names)

    def bad(self):
        """A measurement that cannot be made."""
        r = self.rng
        q = r.sample(self.labels, r.randint(0, 2))
        k = r.randrange(3)
        op = dict(op="bad")
        self.ops.append(op)
        f = getattr(self.m, r.choice(["measure", "measure_x", "measure_y", "measure_z"]))
        if k == 0 or self.kind in ("noiseless", "incoming"):
            q.insert(r.randint(0, len(q)), "nobody")
            attempt(op, lambda: f(q))
        elif k == 1:
            q.insert(r.randint(0, len(q)), r.choice(self.labels))
            x = q[r.randrange(len(q))]
            self.setup.set_param("assign_error_flag", True, x)
            self.setup.set_param("assign_error_prob", r.choice(["unset", 1.5]), x)
            attempt(op, lambda: f(q))
            self.setup.set_param("assign_error_prob", .1, x)
        else:
            self.ops[-1] = op = dict(op="unknown", q="nobody")
            attempt(op, lambda: self.m.meas_target("nobody", -1))

    def look(self, q, k):
        op = dict(op="look", q=q, k=k, off=0)
        self.ops.append(op)
        t = attempt(op, lambda: self.m.meas_target(q, k))
        if not op["raised"]:
            op["off"] = t.value if t.is_measurement_record_target else 1000

    def sweep(self):
        tot = sum(len(o["q"]) for o in self.ops if o["op"] == "meas")
        for q in self.labels:
            for k in range(-min(tot, 9) - 1, min(tot, 9) + 2):
                self.look(q, k)
            n = sum(o["q"].count(q) for o in self.ops if o["op"] == "meas")
            if n > 9:
                for k in {n, n + 1, -n, -n - 1} | {self.rng.randint(-n, n) for _ in range(9)}:
                    self.look(q, k)

    def new(self):
        op = dict(op="new")
        self.ops.append(op)
        attempt(op, self.m.new_circuit)

    def other(self):
        r = self.rng
        op = dict(op="other", emit=[])
        self.ops.append(op)
        names = [g for g in noise.GATES if g not in noise.MEAS and noise.supports(self.kind, g)]
        g = r.choice(names + ["tick", "qubit_coords"])
        if g == "tick":
            circ = attempt(op, self.m.tick)
        elif g == "qubit_coords":
            circ = attempt(op, lambda: self.m.qubit_coords({q: [1, 2] for q in self.labels}))
        else:
            n = r.randint(0, len(self.labels))
            q = r.sample(self.labels, n - n % 2 if g in noise.PAIRS else n)
            a = (3.0,) if g == "idle" and noise.timed_idle(self.kind) else ()
            circ = attempt(op, lambda: getattr(self.m, noise.GATES[g])(self.lst(q) if g not in noise.PAIRS else q, *a))
        if not op["raised"]:
            op["emit"] = measurements(circ, self.names)

    def random(self, n):
        r = self.rng
        for j in range(abs(n)):
            k = r.random()
            if n < 0:  # a long circuit, made twice
                k = .96 if j == abs(n) // 2 else k * .93
            if k < .45:
                q = [r.choice(self.labels) for _ in range(r.randint(0, 5))] if r.random() < .2 else \
                    r.sample(self.labels, r.randint(0, len(self.labels)))
                self.meas(q, r.choice("XYZ"))
            elif k < .55:
                self.bad()
            elif k < .75:
                self.look(r.choice(self.labels), r.randint(-6, 6))
            elif k < .93:
                self.other()
            elif k < .97:
                self.new()
            else:
                self.sweep()
        self.sweep()

    def replay(self, hist):
        m = dict(zip("abc", self.labels * 2))
        for o in hist:
            if o["op"] == "meas":
                self.meas([m[q] for q in o["q"]], o["b"])
            elif o["op"] == "new":
                self.new()
            else:
                self.bad()
            for q in self.labels[:3]:
                for k in (-2, -1, 0, 1):
                    self.look(q, k)
        self.sweep()


def one(arg):
    i, kind, seed, hist, n = arg

    def f():
        r = Rec(kind, seed)
        r.replay(hist) if hist is not None else r.random(n)
        return r.ops

    return call(f, 60)


def histories(num, seed):
    r = run_tlc("MeasRecordModel", "MeasRecordSim.cfg", workers=1, expect_ok=False,
                args=["-simulate", f"num={num}", "-depth", "12", "-seed", str(seed)])
    if r.violated or "rror:" in r.out:
        raise Machinery("MeasRecordModel.tla simulation failed:\n" + r.out[-2000:])
    out = [json.loads(t[1]) for t in r.tuples("HIST")]
    if not out:
        raise Machinery("no histories from MeasRecordModel.tla")
    # TLC prints all the successors of a behaviour: keep one per behaviour
    random.Random(seed).shuffle(out)
    return out[:num]


def inside(c):
    """The calls made to the models inside real experiments and programs."""
    cfgs = insitu.configs(random.Random(c.seed + 11), 60 if c.thorough else 12)
    res = pmap(insitu.one, cfgs, chunksize=4)
    cases, of = [], []
    for cfg, (x, err) in zip(cfgs, res):
        if err:
            c.violation("experiment raised", dict(config=cfg, error=err))
            continue
        c.count("calls_recorded_inside_experiments", x[3])
        for ops in x[0]:
            cases.append(dict(id=len(cases), ops=ops))
            of.append(cfg)
    bad, st = validate("MeasRecordTrace", cases, timeout=2000)
    c.stats(st)
    c.count("models_of_experiments", len(cases))
    c.count("look_ups_inside_experiments", sum(o["op"] == "look" for x in cases for o in x["ops"]))
    for i, (at, clause) in bad.items():
        c.violation(clause, dict(config=of[i], failing_call=cases[i]["ops"][at - 1]))


def body(c):
    n, length = (2400, 60) if c.thorough else (320, 30)
    with ThreadPoolExecutor(2) as ex:
        mc = ex.submit(run_tlc, "MeasRecordModel", None, None, 4)
        hs = ex.submit(histories, 1200 if c.thorough else 160, c.seed).result()
        jobs = [(noise.KINDS[k % 8], c.seed * 7919 + k, h, 0) for k, h in enumerate(hs)]
        jobs += [(noise.KINDS[k % 8], c.seed * 7919 + 100000 + k, None, length) for k in range(n)]
        # long circuits
        jobs += [(noise.KINDS[k % 8], c.seed * 7919 + 200000 + k, None, -400) for k in range(24 if c.thorough else 8)]
        res = pmap(one, [(i, *j) for i, j in enumerate(jobs)], chunksize=8)
        r = mc.result()
    c.stats(dict(states=r.distinct, transitions=r.generated, traces=0))
    cases = []
    for i, (ops, err) in enumerate(res):
        if err:
            c.violation("raised", dict(model=jobs[i][0], seed=jobs[i][1], error=err))
        else:
            cases.append(dict(id=i, ops=strip(ops)))
    for k in range(0, len(cases), 800):
        bad, st = validate("MeasRecordTrace", cases[k:k + 800], timeout=3000)
        c.stats(st)
        for i, (at, clause) in bad.items():
            ops = res[i][0]
            c.violation(clause, dict(model=jobs[i][0], seed=jobs[i][1], failing_call=ops[at - 1],
                                     history=[o for o in ops[:at] if o["op"] not in ("look", "other")][-12:]))
    inside(c)
    c.count("model_states", r.distinct)
    c.count("histories_of_the_machine", len(hs))
    c.count("look_ups_judged", sum(o["op"] == "look" for x in cases for o in x["ops"]))
    c.count("measurements", sum(len(o["q"]) for x in cases for o in x["ops"] if o["op"] == "meas"))
    c.sample(dict(model=jobs[0][0], history=hs[0][:6]))
    c.assumptions += ["look-ups with integer indices", "the qubit list of a measurement can be iterated repeatedly"]


if __name__ == "__main__":
    import sys
    sys.exit(main("C01", body))
