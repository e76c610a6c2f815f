------------------------------ MODULE NoiseOps ------------------------------
(***************************************************************************)
(* What every operation of every noise model adds to a circuit.            *)
(* Probabilities are integers in units of 1/Unit, Unit = 15 * 2^20, the    *)
(* parameters of a setup in units of 2^-20.  A Pauli channel is the vector *)
(* of the probabilities of its non-identity Paulis (3 or 15 of them, in    *)
(* the order X Y Z, or IX IY IZ XI XX ... ZZ), written as a sequence of    *)
(* [n, d]: the probability is n/d units.                                   *)
(* Time is in units of the half-lives: exp(-t/T) = 2^-(t/h), so that the   *)
(* decoherence channels are rational.                                      *)
(***************************************************************************)
EXTENDS SetupParams

Unit == 15 * 1048576
Val(n) == 15 * n                      \* a parameter as a probability

OneQ  == {"x", "z", "h", "s", "sdag"}
TwoQ  == {"cz", "cnot", "swap"}
MeasOp == {"measure", "measure_z", "measure_x", "measure_y"}
ResetOp == {"reset", "reset_z", "reset_x", "reset_y"}
Basis(op) == CASE op \in {"measure", "measure_z", "reset", "reset_z"} -> "Z"
               [] op \in {"measure_x", "reset_x"} -> "X"
               [] op \in {"measure_y", "reset_y"} -> "Y"
               [] OTHER -> ""
StimName == [x |-> "X", z |-> "Z", h |-> "H", s |-> "S", sdag |-> "S_DAG", cz |-> "CZ", cnot |-> "CX", swap |-> "SWAP"]
DurName == [x |-> "X", z |-> "Z", h |-> "H", s |-> "S", sdag |-> "S_DAG", cz |-> "CZ", cnot |-> "CNOT", swap |-> "SWAP",
            measure |-> "M", measure_z |-> "M", measure_x |-> "MX", measure_y |-> "MY",
            reset |-> "R", reset_z |-> "R", reset_x |-> "RX", reset_y |-> "RY"]
ErrName == [x |-> "x_error_prob", z |-> "z_error_prob", h |-> "h_error_prob", s |-> "s_error_prob",
            sdag |-> "sdag_error_prob", cz |-> "cz_error_prob", cnot |-> "cnot_error_prob", swap |-> "swap_error_prob",
            idle |-> "idle_error_prob", incoming |-> "idle_error_prob"]
OpErr(op) == IF op \in MeasOp THEN "meas_error_prob" ELSE IF op \in ResetOp THEN "reset_error_prob" ELSE ErrName[op]

Q(n, d) == [n |-> n, d |-> d]
Fail == [fail |-> TRUE, before |-> <<>>, after |-> <<>>]
Noise(b, a) == [fail |-> FALSE, before |-> b, after |-> a]
Const(v, len) == [i \in 1..len |-> v]

Depol(p, len) == Const(Q(Val(p), len), len)
Flip(p, b) ==  \* a Pauli that flips states of the basis; Y is flipped by X and by Z
    CASE b = "Z" -> <<Q(Val(p), 1), Q(0, 1), Q(0, 1)>>
      [] b = "X" -> <<Q(0, 1), Q(0, 1), Q(Val(p), 1)>>
      [] b = "Y" -> <<Q(Val(p), 1), Q(0, 1), Q(0, 1)>>

(* total probability p; the Paulis with the biased one on some qubit are   *)
(* f = fn/fd times as likely as the others                                 *)
PauliOf(i, k, len) == IF len = 3 THEN i ELSE IF k = 1 THEN i \div 4 ELSE i % 4   \* 1, 2, 3: X, Y, Z
Index(P) == CASE P = "X" -> 1 [] P = "Y" -> 2 [] P = "Z" -> 3
IsBiased(i, P, len) == \E k \in 1..(IF len = 3 THEN 1 ELSE 2) : PauliOf(i, k, len) = Index(P)
Biased(p, P, fn, fd, len) ==
    LET nb == Cardinality({i \in 1..len : IsBiased(i, P, len)})
        D == nb * fn + (len - nb) * fd
    IN [i \in 1..len |-> Q(Val(p) * (IF IsBiased(i, P, len) THEN fn ELSE fd), D)]

RECURSIVE Half(_)
Half(k) == IF k = 0 THEN Unit ELSE Half(k - 1) \div 2      \* 2^-k
(* Pauli-twirled amplitude and phase damping during t; halflives h1, h2 *)
Decay(t, h1, h2) ==
    LET r == Unit - Half(t \div h1)
        d == Unit - Half(t \div h2)
    IN <<Q(r, 4), Q(r, 4), Q(2 * d - r, 4)>>

Idle(T, q, t) ==
    LET h1 == Look(T, "T1", q) h2 == Look(T, "T2", q)
    IN IF h1 = NoVal \/ h2 = NoVal THEN <<>> ELSE <<Decay(t, h1.n, h2.n)>>

Decoheres(kind) == kind \in {"decoherence", "decoherence_asym"}
Uniform(kind) == kind \in {"circuit", "experimental"}
NoisyMeas(kind) == kind \in {"circuit", "biased", "experimental", "phenom"}

(* the noise of the target tq (one qubit or a pair) in one operation *)
Simple(T, op, tq, v) == LET p == Look(T, OpErr(op), tq) IN IF p = NoVal THEN Fail ELSE v
Around(T, kind, tq, t) ==   \* every qubit decoheres on its own: see Expected
    LET i == Idle(T, tq, IF kind = "decoherence" THEN t \div 2 ELSE t)
    IN IF i = <<>> THEN Fail ELSE IF kind = "decoherence" THEN Noise(i, i) ELSE Noise(<<>>, i)

Expected(T, kind, op, tq, t) ==
    LET p == IF Decoheres(kind) THEN NoVal ELSE Look(T, OpErr(op), tq)
        len == IF Len(tq) = 1 THEN 3 ELSE 15
        P == Look(T, "biased_pauli", tq)
        f == Look(T, "biased_factor", tq)
    IN CASE kind = "noiseless" -> Noise(<<>>, <<>>)
         [] op = "incoming" -> IF kind \notin {"incoming", "phenom"} THEN Noise(<<>>, <<>>)
                               ELSE IF p = NoVal THEN Fail ELSE Noise(<<>>, <<Flip(p.n, "Z"), Flip(p.n, "X")>>)
         [] Decoheres(kind) -> IF op = "idle" THEN LET i == Idle(T, tq, t) IN IF i = <<>> THEN Fail ELSE Noise(<<>>, i)
                               ELSE Around(T, kind, tq, t)
         [] op = "idle" /\ kind = "experimental" ->
                LET i == Idle(T, tq, t) IN IF i = <<>> THEN Fail ELSE Noise(<<>>, i)
         [] op \in MeasOp -> IF ~NoisyMeas(kind) THEN Noise(<<>>, <<>>)
                             ELSE IF p = NoVal THEN Fail ELSE Noise(<<Flip(p.n, Basis(op))>>, <<>>)
         [] kind \in {"incoming", "phenom"} -> Noise(<<>>, <<>>)
         [] op \in ResetOp -> IF p = NoVal THEN Fail ELSE Noise(<<>>, <<Flip(p.n, Basis(op))>>)
         [] Uniform(kind) -> IF p = NoVal THEN Fail ELSE Noise(<<>>, <<Depol(p.n, len)>>)
         [] kind = "biased" -> IF NoVal \in {p, P, f} THEN Fail
                               ELSE Noise(<<>>, <<Biased(p.n, P.s, f.n, 64, len)>>)

(* the probability that the outcome of q is read wrongly, or NoVal *)
Assign(T, kind, q) ==
    IF ~(NoisyMeas(kind) \/ Decoheres(kind)) THEN [k |-> "num", n |-> 0, s |-> ""]
    ELSE LET f == Look(T, "assign_error_flag", q)
         IN IF f = NoVal THEN NoVal
            ELSE IF f.n = 0 THEN [k |-> "num", n |-> 0, s |-> ""] ELSE Look(T, "assign_error_prob", q)
=============================================================================
