"""Random noise setups, and real Setup objects driven next to the tables of specs/SetupParams.tla."""
import random

from vlib import CaseTimeout, Machinery, describe_exc

SQ = ["h_error_prob", "s_error_prob", "sdag_error_prob", "x_error_prob", "z_error_prob", "reset_error_prob",
      "meas_error_prob", "idle_error_prob"]
TQ = ["cz_error_prob", "cnot_error_prob", "swap_error_prob"]
UNIT = 2 ** -20  # probabilities are multiples of it


def num(n):
    return dict(k="num", n=int(n), s="")


def var(s):
    return dict(k="var", n=0, s=s)


NONE = dict(k="none", n=0, s="")


class Exc(Exception):
    pass


def attempt(op, fn):
    try:
        r = fn()
    except (Machinery, KeyboardInterrupt, CaseTimeout):
        raise
    except Exception as e:
        op["raised"], op["error"] = True, describe_exc(e)
        return None
    op["raised"] = False
    return r


def strip(ops):
    return [{k: v for k, v in o.items() if k != "error"} for o in ops]


KINDS = ["noiseless", "circuit", "biased", "decoherence", "decoherence_asym", "experimental", "incoming", "phenom"]
GATES = dict(x="x_gate", z="z_gate", h="hadamard", s="s_gate", sdag="s_dag_gate", cz="cphase", cnot="cnot", swap="swap",
             measure="measure", measure_x="measure_x", measure_y="measure_y", measure_z="measure_z",
             reset="reset", reset_x="reset_x", reset_y="reset_y", reset_z="reset_z", idle="idle", incoming="incoming_noise")
PAIRS = ("cz", "cnot", "swap")
MEAS = dict(measure="Z", measure_z="Z", measure_x="X", measure_y="Y")
DUR = ["X", "Z", "H", "S", "S_DAG", "CZ", "CNOT", "SWAP", "M", "MX", "MY", "R", "RX", "RY"]


def supports(kind, op):
    return not (kind == "experimental" and op in ("s", "sdag"))


def timed_idle(kind):
    return kind.startswith("decoherence") or kind == "experimental"


def model(kind, setup, inds):
    from surface_sim import models as M

    if kind == "noiseless":
        return M.NoiselessModel(inds)
    if kind == "decoherence_asym":
        return M.DecoherenceNoiseModel(setup, inds, symmetric_noise=False)
    c = dict(circuit=M.CircuitNoiseModel, biased=M.BiasedCircuitNoiseModel, decoherence=M.DecoherenceNoiseModel,
             experimental=M.ExperimentalNoiseModel, incoming=M.IncomingNoiseModel, phenom=M.PhenomenologicalNoiseModel)
    return c[kind](setup, inds)


def full_setup(rng, qubits=(), flag=None):
    """A setup with every parameter of every model set to something valid."""
    from surface_sim import Setup

    g = dict(sq_error_prob=.01, tq_error_prob="prob", meas_error_prob=.02, reset_error_prob="prob", idle_error_prob=.03,
             assign_error_flag=(rng.random() < .5) if flag is None else flag, assign_error_prob="prob",
             biased_pauli="pauli", biased_factor=2.0, T1=100.0, T2=70.0)
    dicts = [g]
    for q in qubits:
        if rng.random() < .4:
            dicts.append(dict(qubit=q, assign_error_flag=rng.random() < .5, meas_error_prob=rng.choice([0, .1])))
    s = Setup(dict(setup=dicts, gate_durations={d: float(rng.randint(1, 9)) for d in DUR}))
    s.set_var_param("prob", .05)
    s.set_var_param("pauli", rng.choice("XYZ"))
    return s


# ---- events of a circuit, for specs/NoiseOps.tla ----
PROB = 15 * 2 ** 20
ONE_CH = {"X_ERROR": 0, "Y_ERROR": 1, "Z_ERROR": 2}


def units(ps):
    return [int(round(p * PROB)) for p in ps]


def events(circ, names):
    """One event per target of every instruction, noise as vectors of Pauli probabilities."""
    import stim

    from enc import ALIAS, MEAS as MB, RES, SKIP

    ev = []

    def nm(t):
        return names.get(t.value, f"index {t.value}")

    def op(g, q, b="", p=0.0):
        ev.append(dict(e="op", g=g, q=q, b=b, p=units([p])[0]))

    def ch(q, ps):
        ev.append(dict(e="ch", q=q, v=units(ps)))

    for ins in circ.flattened():
        n, a, t = ins.name, ins.gate_args_copy(), ins.targets_copy()
        n = ALIAS.get(n, n)
        if n in SKIP and n != "I" or n in ("TICK", "DETECTOR", "OBSERVABLE_INCLUDE"):
            continue
        if not all(x.is_qubit_target and not x.is_inverted_result_target for x in t):
            op("UNSUPPORTED " + n, [])
        elif n in ONE_CH:
            for x in t:
                ch([nm(x)], [a[0] if i == ONE_CH[n] else 0 for i in range(3)])
        elif n == "DEPOLARIZE1":
            for x in t:
                ch([nm(x)], [a[0] / 3] * 3)
        elif n == "PAULI_CHANNEL_1":
            for x in t:
                ch([nm(x)], a)
        elif n in ("DEPOLARIZE2", "PAULI_CHANNEL_2"):
            for i in range(0, len(t), 2):
                ch([nm(t[i]), nm(t[i + 1])], [a[0] / 15] * 15 if n == "DEPOLARIZE2" else a)
        elif n in MB:
            for x in t:
                op("M", [nm(x)], MB[n], a[0] if a else 0)
        elif n in RES:
            for x in t:
                op("R", [nm(x)], RES[n])
        else:
            d = stim.gate_data(n)
            if d.is_noisy_gate:
                ch([nm(x) for x in t], [-1])
            elif d.is_two_qubit_gate:
                for i in range(0, len(t), 2):
                    op(n, [nm(t[i]), nm(t[i + 1])])
            else:
                for x in t:
                    op(n, [nm(x)])
    return ev
