"""Requests to the real code, recorded for specs/RequestsTrace.tla."""
import hashlib
import random
import traceback

from vlib import CaseTimeout, Machinery, describe_exc

MEAS = {"M", "MX", "MY", "MZ", "MR", "MRX", "MRY", "MRZ"}


def digest(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


class Canon:
    """What consecutive circuits do, independently of the order in which operations on
    different qubits are written: per step and qubit the operations, and the
    annotations in terms of (qubit, number of its outcome)."""

    def __init__(self):
        self.rec, self.cnt = [], {}

    def feed(self, circ):
        steps, ann = [{}], []
        coords = {}
        for ins in circ.flattened():
            tg, args = ins.targets_copy(), tuple(ins.gate_args_copy())
            if ins.name == "TICK":
                steps.append({})
            elif ins.name in ("DETECTOR", "OBSERVABLE_INCLUDE"):
                ann.append((ins.name, args, tuple(sorted(self.rec[len(self.rec) + t.value] for t in tg))))
            elif ins.name == "QUBIT_COORDS":
                for t in tg:
                    coords[t.value] = args
            else:
                for grp in ins.target_groups():
                    ev = (ins.name, args, tuple(str(t) for t in grp))
                    for t in grp:
                        steps[-1].setdefault(t.value, []).append(ev)
                    if ins.name in MEAS:
                        q = grp[0].value
                        self.cnt[q] = self.cnt.get(q, 0) + 1
                        self.rec.append((q, self.cnt[q]))
        return digest(([sorted(s.items()) for s in steps], ann, sorted(coords.items())))


class Log:
    """ops of a case; calls are made through ask()."""

    def __init__(self, env=None):
        self.ops, self.info = [], []
        self.env = env or (lambda: "")

    def ask(self, op, fn, flaw="", key="", out=None):
        e = self.env()
        try:
            r, raised, err = fn(), False, ""
        except (Machinery, KeyboardInterrupt, CaseTimeout):
            raise
        except Exception as x:
            if isinstance(x, NameError) and "surface_sim" not in traceback.extract_tb(x.__traceback__)[-1].filename:
                raise Machinery(f"{op}: {x}")
            r, raised, err = None, True, describe_exc(x)
        o = dict(op=op, flaw=flaw, raised=raised, key=key, out="", env=e, env2=self.env())
        if not raised and out is not None:
            o["out"] = out(r)
        self.ops.append(o)
        self.info.append(dict(op=op, flaw=flaw, raised=raised, error=err, key=key))
        return r
