"""Projection of stim circuits onto the abstract instructions of specs/Pauli.tla."""
import stim

ONE = {"H", "X", "Y", "Z", "S", "S_DAG"}
ALIAS = {"CNOT": "CX", "ZCX": "CX", "ZCZ": "CZ", "H_XZ": "H", "SQRT_Z": "S", "SQRT_Z_DAG": "S_DAG"}
RES = {"R": "Z", "RZ": "Z", "RX": "X", "RY": "Y"}
MEAS = {"M": "Z", "MZ": "Z", "MX": "X", "MY": "Y"}
MR = {"MR": "Z", "MRZ": "Z", "MRX": "X", "MRY": "Y"}
SKIP = {"I", "QUBIT_COORDS", "SHIFT_COORDS"}
ANN = {"DETECTOR", "OBSERVABLE_INCLUDE"}


def is_noise(name):
    try:
        d = stim.gate_data(name)
    except Exception:
        return False
    return d.is_noisy_gate and not d.produces_measurements


class Enc:
    """instr: abstract instructions (noise removed); dets: list of (set of absolute
    outcomes, raw list, coords, position); obs: {index: raw list of outcomes};
    meas: list of (qubit, basis, position); ticks: positions of the TICKs."""

    def __init__(self, circuit=None):
        self.instr, self.dets, self.obs, self.meas, self.ticks = [], [], {}, [], []
        self.obs_list = []  # (index, raw outcomes) of every OBSERVABLE_INCLUDE
        self.coords = {}
        self.num_meas = 0
        if circuit is not None:
            self.feed(circuit)

    def feed(self, circuit):
        """Append a circuit; its record targets may refer to earlier outcomes."""
        n = self.num_meas
        for ins in circuit.flattened():
            name = ALIAS.get(ins.name, ins.name)
            tg = ins.targets_copy()
            if name == "TICK":
                self.ticks.append(len(self.instr))
            elif name == "DETECTOR":
                raw = [n + t.value for t in tg]
                self.dets.append((odd(raw), raw, list(ins.gate_args_copy()), len(self.instr)))
            elif name == "OBSERVABLE_INCLUDE":
                i = int(ins.gate_args_copy()[0])
                self.obs.setdefault(i, []).extend(n + t.value for t in tg)
                self.obs_list.append((i, [n + t.value for t in tg]))
            elif name == "QUBIT_COORDS":
                for t in tg:
                    self.coords[t.value] = list(ins.gate_args_copy())
            elif name in SKIP or is_noise(name):
                pass
            elif name in ONE:
                # the same qubit twice: split, the sets of the specification must be honest
                for grp in split_repeats([t.value for t in tg]):
                    self.add(name, grp)
            elif name in ("CX", "CZ", "SWAP"):
                if all(t.is_qubit_target for t in tg):
                    v = [t.value for t in tg]
                    self.add(name, [[v[i], v[i + 1]] for i in range(0, len(v), 2)])
                else:
                    self.add("UNSUPPORTED", [])
            elif name in RES:
                self.add("R", [t.value for t in tg], RES[name])
            elif name in MEAS or name in MR:
                b = MEAS.get(name) or MR[name]
                for grp in split_repeats(tg, key=lambda t: t.value):
                    inv = [t.value for t in grp if t.is_inverted_result_target]
                    flip = "X" if b != "X" else "Z"
                    if inv:
                        self.add(flip, inv)
                    self.add("M", [t.value for t in grp], b, n)
                    for t in grp:
                        self.meas.append((t.value, b, len(self.instr) - 1))
                    n += len(grp)
                    if inv:
                        self.add(flip, inv)
                    if name in MR:
                        self.add("R", [t.value for t in grp], b)
            else:
                try:
                    c = stim.Circuit()
                    c.append(ins.name, tg, ins.gate_args_copy())
                    sub = Enc(c.decomposed())
                    if sub.meas:
                        raise ValueError
                    self.instr += sub.instr
                except Exception:
                    self.add("UNSUPPORTED", [])
        self.num_meas = n

    def add(self, op, t, b="", k=0):
        self.instr.append(dict(op=op, t=t, b=b, k=k))

    def prod(self, m=(), x=(), z=(), kind="det", v=0, fx=(), fz=(), hz=0, hq=()):
        return dict(m=sorted(m), x=sorted(x), z=sorted(z), kind=kind, v=v, fx=sorted(fx), fz=sorted(fz),
                    hz=hz, hq=sorted(hq))

    def prod_of(self, x, z, gens, phase):
        """The operator (x, z) at the end is the ordered product of gens times i^phase."""
        return dict(self.prod(x=x, z=z, kind="prod", v=phase), fx=list(gens))


def odd(raw):
    s = set()
    for r in raw:
        s ^= {r}
    return s


def split_repeats(items, key=lambda x: x):
    groups, cur, seen = [], [], set()
    for it in items:
        if key(it) in seen:
            groups.append(cur)
            cur, seen = [], set()
        cur.append(it)
        seen.add(key(it))
    if cur:
        groups.append(cur)
    return groups
