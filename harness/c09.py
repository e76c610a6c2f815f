"""C09: noise parameters resolve by specificity, then generality, then family."""
import random
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

from noise import KINDS, NONE, SQ, TQ, attempt, model, num, strip, var
from vlib import call, main, pmap, run_tlc, validate

OTHER = ["T1", "assign_error_prob", "assign_error_flag", "sq_error_prob", "tq_error_prob", "biased_pauli"]
QUBITS = ["D1", "D2", "Z1", "X 3"]


class Rec:
    """Drives a real Setup and writes the history down."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.ops, self.s = [], None
        self.dur = []
        r = self.rng
        self.params = r.sample(SQ, r.randint(1, 3)) + r.sample(TQ, r.randint(1, 2)) + r.sample(OTHER, r.randint(1, 4))
        if r.random() < .6:
            self.params += ["sq_error_prob", "tq_error_prob"]
        self.params = list(dict.fromkeys(self.params))
        self.vars = ["u", "w", "prob"] + r.sample(["v w", "T1", "sq_error_prob", "x_error_prob", "D1"], 2)
        self.tuples = [(q,) for q in r.sample(QUBITS, 2)] + [tuple(r.sample(QUBITS, 2)) for _ in range(2)]
        self.tuples.append(self.tuples[-1][::-1])

    # (value for the code, value for the specification)
    def value(self):
        r = self.rng
        if r.random() < .4:
            x = r.choice(self.vars)
            return x, var(x)
        if r.random() < .1:
            b = r.random() < .5
            return b, None
        n = r.randint(0, 3) if r.random() < .3 else r.randint(0, 10 ** 6)
        return r.choice([n / 2 ** 20, n / 2 ** 20, n]) if n < 4 else n / 2 ** 20, None

    def val(self):
        v, a = self.value()
        return v, a or self.encode(v)

    @staticmethod
    def encode(v):
        if isinstance(v, str):
            return dict(k="str", n=0, s=v)
        if isinstance(v, bool):
            return num(int(v) * 2 ** 20)
        n = v * 2 ** 20
        if isinstance(v, (int, float)) and n == int(n) and abs(n) < 2 ** 31:
            return num(n)
        return dict(k="odd", n=0, s=repr(v))

    def load(self):
        from surface_sim import Setup

        r = self.rng
        dicts, spec, used = [], [], set()
        for _ in range(r.randint(1, 5)):
            q = () if r.random() < .4 else r.choice(self.tuples)
            if q and q in used and r.random() < .9:
                continue
            used.add(q)
            d, l = {}, []
            for p in r.sample(self.params, r.randint(1, len(self.params))):
                v, a = self.value()
                d[p] = v
                l.append(dict(p=p, v=a or self.encode(v)))
            if len(q) == 1 and r.random() < .7:
                d["qubit"] = q[0]
            elif q:
                d["qubits"] = list(q)
            items = list(d.items())
            dicts.append(dict(r.sample(items, len(items))))
            spec.append(dict(q=list(q), p=l))
        s = dict(setup=dicts)
        if r.random() < .5:
            g = {n: r.randint(1, 50) for n in r.sample(["X", "CZ", "M", "R"], 2)}
            s["gate_durations"] = g
            self.dur = [dict(p=n, v=self.encode(x)) for n, x in g.items()]
        if r.random() < .5:
            s["name"] = "n"
        op = dict(op="load", dicts=spec)
        self.ops.append(op)
        if r.random() < .3:
            import yaml

            def mk():
                with tempfile.TemporaryDirectory() as t:
                    f = Path(t) / "setup.yaml"
                    f.write_text(yaml.dump(s))
                    return Setup.from_yaml(f)
        else:
            def mk():
                return Setup(s)
        self.s = attempt(op, mk)
        self.users()

    def users(self):
        """Noise models that use the setup; they have to answer as the setup does."""
        kinds = self.rng.sample([k for k in KINDS if k != "noiseless"], 2)
        self.models = [] if self.s is None else [model(k, self.s, {q: i for i, q in enumerate(QUBITS)}) for k in kinds]

    def asked(self):
        """Who is asked for the value of a parameter: the setup or a model using it."""
        return self.rng.choice([self.s, self.s] + self.models)

    def circuit_setup(self):
        from surface_sim.setup import CircuitNoiseSetup

        names = ["sq_error_prob", "tq_error_prob", "meas_error_prob", "reset_error_prob", "idle_error_prob", "assign_error_prob"]
        l = [dict(p=n, v=var("prob")) for n in names] + [dict(p="assign_error_flag", v=self.encode(True))]
        op = dict(op="load", dicts=[dict(q=[], p=l)])
        self.ops.append(op)
        self.params = names + ["assign_error_flag", "cz_error_prob", "h_error_prob"]
        self.s = attempt(op, CircuitNoiseSetup)
        self.users()

    def step(self):
        r, s = self.rng, self.s
        k = r.random()
        q = () if r.random() < .25 else r.choice(self.tuples)
        p = r.choice(self.params)
        if k < .25:
            v, a = self.val()
            op = dict(op="param", p=p, v=a, q=list(q))
            self.ops.append(op)
            attempt(op, lambda: s.set_param(p, v, *q))
        elif k < .4:
            x = r.choice(self.vars)
            v = r.choice([None, "Z", True, r.randint(0, 10 ** 6) / 2 ** 20, r.randint(0, 10 ** 6) / 2 ** 20])
            op = dict(op="var", x=x, v=NONE if v is None else self.encode(v))
            self.ops.append(op)
            attempt(op, lambda: s.set_var_param(x, v))
        elif k < .8:
            if r.random() < .2:
                p = r.choice(SQ + TQ + OTHER)
            op = dict(op="look", p=p, q=list(q), v=NONE)
            self.ops.append(op)
            who = self.asked()
            v = attempt(op, lambda: who.param(p, *q))
            if not op["raised"]:
                op["v"] = self.encode(v)
        elif k < .85:
            x = r.choice(self.vars + SQ)
            op = dict(op="lookvar", x=x, v=NONE)
            self.ops.append(op)
            v = attempt(op, lambda: s.var_param(x))
            if not op["raised"]:
                op["v"] = self.encode(v)
        elif k < .92:
            self.ops.append(dict(op="free", names=sorted(s.free_params)))
        elif k < .96:
            x = r.choice(["X", "CZ", "M", "R", "H"])
            op = dict(op="dur", x=x, v=NONE)
            self.ops.append(op)
            who = self.asked()
            v = attempt(op, lambda: who.gate_duration(x))
            if not op["raised"]:
                op["v"] = self.encode(v)
        else:
            op = dict(op="bad")
            self.ops.append(op)
            bad = r.choice([lambda: s.set_param(3, .1), lambda: s.set_param("T1", [1]), lambda: s.set_param("T1", .2, 4),
                            lambda: s.set_param("T1", None), lambda: s.set_param("T1", "new", 4),
                            lambda: s.param(3), lambda: s.param("T1", 4), lambda: s.set_var_param(3, .1)])
            attempt(op, bad)

    def sweep(self):
        """Ask everything."""
        for p in dict.fromkeys(self.params):
            for q in dict.fromkeys([()] + self.tuples):
                op = dict(op="look", p=p, q=list(q), v=NONE)
                self.ops.append(op)
                who = self.asked()
                v = attempt(op, lambda: who.param(p, *q))
                if not op["raised"]:
                    op["v"] = self.encode(v)
        self.ops.append(dict(op="free", names=sorted(self.s.free_params)))


def one(arg):
    i, seed, n = arg

    def f():
        r = Rec(seed)
        r.circuit_setup() if seed % 10 == 0 else r.load()
        if r.s is not None:
            r.sweep()
            for _ in range(n):
                r.step()
                if r.rng.random() < .1:
                    r.sweep()
            r.sweep()
        return r.ops, r.dur

    return call(f, 60)


def body(c):
    n, length = (3000, 40) if c.thorough else (500, 25)
    with ThreadPoolExecutor(1) as ex:
        mc = ex.submit(run_tlc, "SetupParamsModel", "SetupParamsDeep.cfg" if c.thorough else None, None, 4, 2500)
        res = pmap(one, [(i, c.seed * 100003 + i, length) for i in range(n)], chunksize=8)
        r = mc.result()
    c.stats(dict(states=r.distinct, transitions=r.generated, traces=0))
    cases = []
    for i, (x, err) in enumerate(res):
        if err:
            c.violation("raised", dict(seed=c.seed * 100003 + i, error=err))
        else:
            cases.append(dict(id=i, ops=strip(x[0]), dur=x[1]))
    for k in range(0, len(cases), 1000):
        bad, st = validate("SetupParamsTrace", cases[k:k + 1000], timeout=3000)
        c.stats(st)
        for i, (at, clause) in bad.items():
            c.violation(clause, dict(failing_call=res[i][0][0][at - 1], at=at,
                                     seed=c.seed * 100003 + i))
    c.count("model_states", r.distinct)
    c.count("look_ups_judged", sum(o["op"] in ("look", "lookvar", "dur", "free") for x in cases for o in x["ops"]))
    c.count("updates", sum(o["op"] in ("param", "var", "load") for x in cases for o in x["ops"]))
    c.sample(dict(history=[o["op"] for o in cases[0]["ops"]][:20]))
    c.assumptions += ["parameters belong to one qubit, an ordered pair of qubits, or all"]


if __name__ == "__main__":
    import sys
    sys.exit(main("C09", body))
