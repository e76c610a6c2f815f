--------------------------- MODULE NoiseOpsModel ---------------------------
(* Consistency of the channels of NoiseOps: total probability, bias, limits *)
(* and composition, over a grid of parameters.                              *)
EXTENDS NoiseOps, TLC
VARIABLES p, P, fn, len, t, h1, h2
vars == <<p, P, fn, len, t, h1, h2>>
Init == /\ p \in {0, 1, 1000, 8000}
        /\ P \in {"X", "Y", "Z"}
        /\ fn \in {0, 16, 64, 96, 512}
        /\ len \in {3, 15}
        /\ t \in {8, 16, 32}
        /\ h1 \in {2, 4, 8}
        /\ h2 \in {2, 4, 8}
        /\ h2 < 2 * h1
Spec == Init /\ [][UNCHANGED vars]_vars

RECURSIVE Sum(_, _)
Sum(E, k) == IF k = 0 THEN 0 ELSE E[k].n + Sum(E, k - 1)
BC == Biased(p, P, fn, 64, len)
(* the total is p *)
Total == /\ \A i, j \in 1..len : BC[i].d = BC[j].d
         /\ fn > 0 => \E q \in {Sum(BC, len)} : q \div BC[1].d = Val(p) /\ q % BC[1].d = 0
(* biased Paulis are f times as likely as the others *)
Bias == \A i, j \in 1..len : IsBiased(i, P, len) /\ ~IsBiased(j, P, len) =>
            BC[i].n = (BC[j].n \div 64) * fn
NumBiased == Cardinality({i \in 1..len : IsBiased(i, P, len)}) = IF len = 3 THEN 1 ELSE 7
(* no bias is a depolarizing channel *)
NoBias == fn = 64 => \A i \in 1..len : BC[i].n * len = Depol(p, len)[i].n * BC[i].d
(* decay: X and Y shrink as exp(-t/T2), Z as exp(-t/T1) *)
Fid(E) == <<Unit - (E[2].n + E[3].n) \div 2, Unit - (E[1].n + E[2].n) \div 2>>
DecayOK == LET E == Decay(t, h1, h2) IN
    /\ \A i \in 1..3 : E[i].n >= 0
    /\ E[1] = E[2]
    /\ Fid(E)[2] = Half(t \div h1)
    /\ Fid(E)[1] = Half(t \div h2)
=============================================================================
