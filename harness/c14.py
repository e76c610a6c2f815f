"""C14: building a circuit neither depends on nor disturbs anything else."""
import random

import enc, noise, progs, reqs, zoo
from c19 import FAULTS
from vlib import call, main, pmap, run_tlc, validate
from concurrent.futures import ThreadPoolExecutor

FAMS = {"rot": ["rot_css", "rot_css_pipe", "rot_xzzx", "rot_xzzx_pipe", "rot_xzzx_google"], "unrot": ["unrot_css"]}
RAND = ["circuit", "biased", "incoming", "phenom", "noiseless"]


class World:
    """Layouts, setups, models and detectors that are used together.  The same w gives equal worlds."""

    def __init__(self, w):
        from surface_sim import Detectors
        from surface_sim import models as M
        from surface_sim.setup import CircuitNoiseSetup, Setup

        r = random.Random(w)
        self.fam = r.choice(["rot", "unrot"])
        f = self.fam
        dz, dx = r.choice([(3, 2), (3, 2), (4, 3)]) if f == "rot" else r.choice([(2, 2), (3, 3)])
        a = zoo.layout(f, dz, dx)
        n = len(a.get_qubits(role="data"))
        b = zoo.layout(f, dz, dx, label="L1", point=(31, 31), did=n + 1, zid=n + 1, xid=n + 1, ind=a.get_max_ind() + 3)
        self.layouts = [a, b]
        lg = zoo.loggates(f)
        for l in self.layouts:
            lg.set_trans_s(l, zoo.corners(l)[0])
            if f == "unrot":
                lg.set_trans_h(l, zoo.corners(l)[0])
        self.cnot = r.random() < .6 and (dz, dx) != (4, 3)
        if self.cnot:
            lg.set_trans_cnot(a, b)
            lg.set_trans_cnot(b, a)
        self.inds, self.coords, self.ancs, self.data = {}, {}, [], {}
        for k, l in enumerate(self.layouts):
            self.inds.update(l.qubit_inds())
            self.coords.update(l.anc_coords())
            self.ancs += l.get_qubits(role="anc")
            self.data[k] = l.get_qubits(role="data")
        self.frames = [r.choice(zoo.FRAMES) for _ in range(3)]
        self.detectors = [Detectors(self.ancs, frame=x, anc_coords=self.coords) for x in self.frames]
        # setups: two models share the first one
        d = CircuitNoiseSetup().to_dict()
        for p in d["setup"]:
            p["biased_pauli"], p["biased_factor"] = "pauli", .5
        self.setups = [Setup(d), Setup(d)]
        self.values = [.001, .002]
        for s, v in zip(self.setups, self.values):
            s.set_var_param("prob", v)
            s.set_var_param("pauli", "Z")
        cls = dict(circuit=M.CircuitNoiseModel, biased=M.BiasedCircuitNoiseModel, incoming=M.IncomingNoiseModel,
                   phenom=M.PhenomenologicalNoiseModel)
        self.kinds = [r.choice(RAND) for _ in range(3)]
        self.models = [cls[k](self.setups[j // 2], self.inds) if k in cls else M.NoiselessModel(self.inds)
                       for j, k in enumerate(self.kinds)]
        self.lent = [self.inds, self.coords, self.ancs, d]  # arguments given to the code
        self.inits = [{q: r.randint(0, 1) for q in self.data[0]}, {q: r.randint(0, 1) for q in self.data[1]}]
        self.inits.append({**self.inits[0], **self.inits[1]})
        self.sels = [None, None, r.sample(self.ancs, 3), list(self.ancs)]
        # what is asked of a circuit on one layout only, in no particular order
        self.part = [[None if s is None else [a for a in s if a in l.get_qubits(role="anc")] for l in self.layouts]
                     for s in self.sels]
        for ps in self.part:
            for q in ps:
                if q:
                    r.shuffle(q)
        self.lent += [self.inits, self.sels, self.part]

    def update(self, k, v):
        self.values[k] = v
        self.setups[k].set_var_param("prob", v)

    def look(self):
        """What can be asked of the surroundings."""
        out = [repr(self.lent)]
        for l in self.layouts:
            out.append((l.to_dict(), l.get_qubits(), l.qubit_inds(), l.anc_coords(), l.get_logical_qubits(), l.log_x, l.log_z,
                        l.adjacency_matrix().to_dict(), l.projection_matrix("z_type").to_dict(), l.get_max_ind(),
                        [l.get_neighbors([q]) for q in l.get_qubits()]))
        for s in self.setups:
            out.append((s.to_dict(), sorted(map(str, s.free_params)), s.var_param("prob"), s.var_param("pauli")))
        return reqs.digest(out)


def plan(r, w):
    """A request: the description of a circuit to build in the world w."""
    v = r.choice(FAMS[w.fam])
    kinds = ["memory", "memory", "s"] + (["h"] if w.fam == "unrot" else []) + (["cnot"] if w.cnot else []) + ["open", "open"]
    kind = r.choice(kinds)
    if v in zoo.XZZX:
        kind = "memory" if r.random() < .7 or v == "rot_xzzx_google" else "open"
    if v == "rot_css_pipe" and kind == "cnot":
        kind = "s"
    return dict(v=v, kind=kind, lay=r.randrange(2), m=r.randrange(3), d=r.randrange(3), rot=r.random() < .5, reset=r.random() < .5,
                gauge=r.random() < .5, sel=r.randrange(4), n=r.randint(1, 3), ng=2 * r.randint(0, 1), seed=r.randrange(10 ** 6),
                orient=r.choice(["constant", "alternating"]))


def build(w, p):
    from surface_sim.util import merge_log_meas, merge_qec_rounds

    m, d = w.models[p["m"]], w.detectors[p["d"]]
    l = w.layouts[p["lay"]]
    if p["kind"] == "open":  # a circuit that is not finished
        blk = zoo.bmod(p["v"])
        r = random.Random(p["seed"])
        m.new_circuit()
        d.new_circuit()
        both = r.random() < .5
        order = [0, 1] if r.random() < .5 else [1, 0]
        circ = m.qubit_coords(l.qubit_coords())
        for k in order if both else order[:1]:
            circ += blk.init_qubits(m, w.layouts[k], d, w.inits[k], rot_basis=r.random() < .5)
        on = [w.layouts[k] for k in (order if both else order[:1])]
        for _ in range(r.randint(0, 3)):
            if r.random() < .4 and p["v"] not in zoo.XZZX:
                import surface_sim.circuit_blocks.util as u

                circ += u.log_trans_s(m, on[0], d)
            circ += merge_qec_rounds(blk.qec_round_iterator, m, on, d, anc_reset=p["reset"])
        if r.random() < .5:
            circ += blk.log_meas(m, on[0], d, rot_basis=p["rot"], anc_reset=p["reset"])
            if both and r.random() < .5:
                circ += merge_log_meas(blk.log_meas_iterator, m, on[1:], d, [p["rot"]], anc_reset=p["reset"])
        return str(circ)
    e = zoo.emod(p["v"])
    kw = dict(model=m, detectors=d, rot_basis=p["rot"], gauge_detectors=p["gauge"], anc_detectors=w.sels[p["sel"]])
    if w.sels[p["sel"]] is not None and p["kind"] != "cnot":
        kw["anc_detectors"] = w.part[p["sel"]][p["lay"]]
    if p["v"] != "rot_xzzx_google":
        kw["anc_reset"] = p["reset"]
    if p["kind"] == "memory":
        return str(e.memory_experiment(layout=l, num_rounds=p["n"], data_init=w.inits[p["lay"]], **kw))
    if p["kind"] == "cnot":
        a, b = w.layouts if p["lay"] == 0 else w.layouts[::-1]
        return str(e.repeated_cnot_experiment(layout_c=a, layout_t=b, num_cnot_gates=p["ng"], num_rounds_per_gate=p["n"],
                                              cnot_orientation=p["orient"], data_init=w.inits[2], **kw))
    k = p["kind"]
    return str(getattr(e, f"repeated_{k}_experiment")(layout=l, num_rounds_per_gate=p["n"], data_init=w.inits[p["lay"]],
                                                      **{f"num_{k}_gates": p["ng"]}, **kw))


def key(w, p):
    return reqs.digest((sorted(p.items()), w.values))


def together(arg):
    """Circuits built one after the other with the same objects; each also alone, in a fresh world."""
    i, seed, length = arg

    def f():
        r = random.Random(seed)
        w = World(seed)
        plans = [plan(r, w) for _ in range(4)]
        todo, cur = [], list(w.values)
        for _ in range(length):
            x = r.random()
            if x < .15:
                cur[r.randrange(2)] = r.choice([.001, .003, .0125])
                todo.append(("set", list(cur)))
            else:
                todo.append(("build", r.choice(plans), list(cur)))
        log = reqs.Log()
        known = {}
        for t in todo:
            if t[0] == "build":
                k = reqs.digest((sorted(t[1].items()), t[2]))
                if k not in known:
                    known[k] = 1
                    w1 = World(seed)
                    for j in range(2):
                        w1.update(j, t[2][j])
                    log.env = w1.look
                    log.ask("alone " + t[1]["kind"], lambda: build(w1, t[1]), key=k, out=reqs.digest)
        log.env = w.look
        for t in todo:
            if t[0] == "set":
                for j in range(2):
                    w.update(j, t[1][j])
            else:
                log.ask(t[1]["kind"], lambda: build(w, t[1]), key=key(w, t[1]), out=reqs.digest)
        return log.ops, [(t[0], t[1]) for t in todo]

    return call(f, 120)


def interleaved(arg):
    """Two programs and experiments on the same layouts, step by step, with their own models and detectors."""
    i, c1, h1, c2, h2, seed = arg

    def f():
        r = random.Random(seed)
        log = reqs.Log()
        for j, (cfg, h) in enumerate([(c1, h1), (c2, h2)]):
            _, _, steps = progs.replay(cfg, h)
            for n, s in enumerate(steps):
                log.ask("alone " + s["st"]["op"], lambda: s["circ"], key=f"{j}.{n}", out=lambda x: reqs.digest(str(x)))
        a, b = progs.Codes(c1), progs.Codes(c2)
        b.layouts = a.layouts
        for st in h1 + h2:
            if st["op"] == "cnot" and (st["k"] - 1, st["t"] - 1) not in a.cnots:
                zoo.loggates(a.fam).set_trans_cnot(a.layouts[st["k"] - 1], a.layouts[st["t"] - 1])
                a.cnots.add((st["k"] - 1, st["t"] - 1))
        b.cnots = a.cnots
        a.start()
        b.start()
        log.env = lambda: reqs.digest([l.to_dict() for l in a.layouts]) + "!" * (not (a.intact() and b.intact()))
        s1, s2 = [], []
        runs = [(0, progs.stepper(a, h1, enc.Enc(), s1), s1, a), (1, progs.stepper(b, h2, enc.Enc(), s2), s2, b)]
        while runs:
            run = r.choice(runs)
            j, it, done, c = run

            def ask():
                try:
                    next(it)
                except StopIteration:
                    return None
                return done[-1]["circ"]

            if len(done) == len((h1, h2)[j]):
                runs.remove(run)
                continue
            log.ask((h1, h2)[j][len(done)]["op"], ask, key=f"{j}.{len(done)}", out=lambda x: reqs.digest(str(x)))
            if log.ops[-1]["raised"]:
                break
        return log.ops, [c1, [s["op"] for s in h1], c2, [s["op"] for s in h2]]

    return call(f, 120)


def body(c):
    rng = random.Random(c.seed + 14)
    T = c.thorough
    with ThreadPoolExecutor(4) as ex:
        futs = [(w, ex.submit(progs.behaviours, 160 if T else 16, s["gates"], 3, 10, 5, 8, c.seed * 10 + k + 5))
                for k, (w, s) in enumerate(progs.SETS.items())]
        sane = ex.submit(run_tlc, "RequestsModel", "RequestsModel_none.cfg", None, 2)
        odd = [(x, ex.submit(run_tlc, "RequestsModel", f"RequestsModel_{x}.cfg", None, 1, 300, "2g", (), False)) for x in FAULTS]
        hists = [(w, f.result()) for w, f in futs]
        r = sane.result()
        c.stats(dict(states=r.distinct, transitions=r.generated, traces=0))
        for x, f in odd:
            if not f.result().violated:
                raise progs.Machinery(f"RequestsModel.tla does not notice the faulty builder {x}")
    c.count("faulty_builders_noticed_by_the_clauses", len(FAULTS))
    a = [(k, c.seed * 4001 + k, 24 if T else 14) for k in range(600 if T else 70)]
    b = []
    for w, hs in hists:
        for h1, h2 in zip(hs[::2], hs[1::2]):
            c1 = progs.prog_cfg(rng, w)
            c2 = dict(c1, v=rng.choice(progs.SETS[w]["vs"] if zoo.MEM[c1["v"]][0] != "unrot" else [c1["v"]]),
                      frame=rng.choice(["post-gate", "pre-gate"]), reset=rng.random() < .5, seed=rng.randrange(10 ** 6),
                      model=rng.choice(["noiseless", "circuit", "phenom", "incoming"]))
            if zoo.MEM[c2["v"]][1] != zoo.MEM[c1["v"]][1]:
                c2["v"] = c1["v"]
            b.append((10 ** 5 + len(b), c1, h1, c2, h2, rng.randrange(10 ** 9)))
    cases, src = [], {}
    for name, jobs, res in (("histories of builds", a, pmap(together, a)), ("interleaved programs", b, pmap(interleaved, b))):
        for j, (x, err) in zip(jobs, res):
            if err:
                c.violation("raised", dict(source=j, error=err))
                continue
            cases.append(dict(id=j[0], ops=x[0]))
            src[j[0]] = (j, x[1], x[0])
        c.count(name.replace(" ", "_"), len(jobs))
    for k in range(0, len(cases), 500):
        bad, st = validate("RequestsTrace", cases[k:k + 500], timeout=3000)
        c.stats(st)
        for i, v in bad.items():
            ops = src[i][2]
            c.violation(v[1], dict(request=ops[v[0] - 1], before=[o["op"] for o in ops[:v[0] - 1]][-12:], source=src[i][0],
                                   plan=src[i][1]))
    c.count("answers_compared", sum(not o["op"].startswith("alone") for x in cases for o in x["ops"]))
    c.count("answers_of_fresh_objects", sum(o["op"].startswith("alone") for x in cases for o in x["ops"]))
    c.sample(dict(history=a and src.get(a[0][0], [0, 0])[1]))
    c.assumptions += ["what can be asked of the surroundings: the dictionaries of layouts and setups, layout queries, the lists and"
                      " dictionaries given as arguments; models and detector trackers are judged by the circuits they build later"]


if __name__ == "__main__":
    import sys
    sys.exit(main("C14", body))
