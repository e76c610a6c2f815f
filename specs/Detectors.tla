----------------------------- MODULE Detectors -----------------------------
(***************************************************************************)
(* What the detector builder has to report.  Ancillas are 1..n.  State:    *)
(*   act   active ancillas                                                 *)
(*   cnt   outcomes of each ancilla in the circuit so far                  *)
(*   since outcomes of each ancilla since its activation                   *)
(*   gen   which old stabilizers (of the last round) every new stabilizer  *)
(*         is the product of: the gates since the last round               *)
(*   spent ancillas whose stabilizers were destroyed by a read-out         *)
(*   rounds number of rounds of the circuit                                *)
(* An outcome is <<q, k>>: the k-th of qubit q (data qubits are > 1000).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

SymD(a, b) == (a \ b) \cup (b \ a)
RECURSIVE XorOver(_, _)
(* symmetric difference of F[i] over i in S *)
XorOver(F, S) == IF S = {} THEN {} ELSE LET i == CHOOSE j \in S : TRUE IN SymD(F[i], XorOver(F, S \ {i}))

Fresh(n) == [act |-> {}, cnt |-> [a \in 1..n |-> 0], since |-> [a \in 1..n |-> 0],
             gen |-> [a \in 1..n |-> {a}], spent |-> {}, rounds |-> 0]

(* ---- GF(2) maps on the stabilizers: U[a] = factors of the new stabilizer a ---- *)
Comp(U, G) == TLCEval([a \in DOMAIN U |-> XorOver(G, U[a])])
RECURSIVE Reduce(_, _)
(* Gaussian elimination on a set of vectors (sets): TRUE iff independent *)
Reduce(rows, left) ==
    IF left = {} THEN TRUE
    ELSE LET r == CHOOSE x \in left : TRUE
             v == rows[r]
         IN IF v = {} THEN FALSE
            ELSE LET p == CHOOSE x \in v : TRUE
                     rows2 == TLCEval([x \in DOMAIN rows |-> IF x # r /\ x \in left /\ p \in rows[x] THEN SymD(rows[x], v) ELSE rows[x]])
                 IN Reduce(rows2, left \ {r})
Invertible(U) == Reduce(U, DOMAIN U)
(* the inverse, by elimination on [x |-> <<row, combination>>] *)
RECURSIVE GJ(_, _, _)
GJ(rows, comb, todo) == \* todo: columns still without a pivot
    IF todo = {} THEN [rows |-> rows, comb |-> comb]
    ELSE LET p == CHOOSE x \in todo : TRUE
             r == CHOOSE x \in DOMAIN rows : p \in rows[x] /\ (rows[x] \cap ((DOMAIN rows) \ todo) = {})
             hit == {x \in DOMAIN rows : x # r /\ p \in rows[x]}
         IN GJ(TLCEval([x \in DOMAIN rows |-> IF x \in hit THEN SymD(rows[x], rows[r]) ELSE rows[x]]),
               TLCEval([x \in DOMAIN rows |-> IF x \in hit THEN SymD(comb[x], comb[r]) ELSE comb[x]]),
               todo \ {p})
Inverse(G) == LET e == TLCEval(GJ(G, [a \in DOMAIN G |-> {a}], DOMAIN G))
              IN TLCEval([a \in DOMAIN G |-> LET r == CHOOSE x \in DOMAIN G : e.rows[x] = {a} IN e.comb[r]])

(* ---- outcomes ---- *)
(* the value of stabilizer a at its last measurement, as outcomes *)
Value(s, a, reset) ==
    IF s.since[a] = 0 THEN {}
    ELSE {<<a, s.cnt[a]>>} \cup (IF ~reset /\ s.since[a] >= 2 THEN {<<a, s.cnt[a] - 1>>} ELSE {})
Values(s, reset) == [a \in DOMAIN s.cnt |-> Value(s, a, reset)]
Measured(s) == [s EXCEPT !.cnt = [a \in DOMAIN @ |-> IF a \in s.act THEN @[a] + 1 ELSE @[a]],
                         !.since = [a \in DOMAIN @ |-> IF a \in s.act THEN @[a] + 1 ELSE @[a]],
                         !.rounds = @ + 1]

(* ---- the detectors of a round (s: state before the round) ---- *)
RoundDets(s, frame, reset) ==
    LET now == TLCEval(Values(Measured(s), reset))
        prev == TLCEval(Values(s, reset))
        inv == TLCEval(IF frame = "pre-gate" THEN Inverse(s.gen) ELSE s.gen)
    IN TLCEval([a \in DOMAIN s.cnt |->
        IF a \notin s.act THEN {}
        ELSE CASE frame = "post-gate" -> SymD(now[a], XorOver(prev, s.gen[a]))
               [] frame = "pre-gate" -> SymD(XorOver(now, inv[a]), prev[a])
               [] frame = "gate-independent" -> SymD(now[a], prev[a])])
RoundDet(s, a, frame, reset) == RoundDets(s, frame, reset)[a]
(* the detector of a read-out stabilizer, data = outcomes of its data qubits *)
DataDet(s, a, frame, reset, data) ==
    LET prev == TLCEval(Values(s, reset))
    IN IF a \notin s.act THEN {}
       ELSE IF frame = "gate-independent" THEN SymD(data, prev[a])
       ELSE SymD(data, XorOver(prev, s.gen[a]))

(* ---- transitions ---- *)
(* ancillas related by the pending gates, in either direction *)
RECURSIVE Joined(_, _)
Joined(s, S) == LET T == S \cup {a \in DOMAIN s.gen : \E b \in S : a # b /\ (a \in s.gen[b] \/ b \in s.gen[a])}
                IN IF T = S THEN S ELSE Joined(s, T)

DoActivate(s, S) == [s EXCEPT !.act = @ \cup S, !.since = [a \in DOMAIN @ |-> IF a \in S THEN 0 ELSE @[a]]]
Forget(s, S) == [s EXCEPT !.gen = [a \in DOMAIN @ |-> IF a \in S THEN {a} ELSE @[a]]]
DoDeactivate(s, S) == [Forget(s, S) EXCEPT !.act = @ \ S, !.spent = @ \ S]
DoGate(s, U) == [s EXCEPT !.gen = Comp(U, @)]
DoRound(s) == [Measured(s) EXCEPT !.gen = [a \in DOMAIN @ |-> {a}]]
DoData(s, R) == [s EXCEPT !.spent = @ \cup Joined(s, R)]

(* what the caller may ask for *)
CanActivate(s, S) == S \cap s.act = {}
CanDeactivate(s, S) == S \subseteq s.act
(* no gate mixing the switched-off stabilizers with others may be pending *)
CleanCut(s, S) == Joined(s, S) = S
(* spent stabilizers have no value any more *)
CanRound(s) == s.spent = {}
CanGate(s, U) == \A a \in DOMAIN U : U[a] # {a} => (U[a] \cup {a}) \subseteq s.act \ s.spent
CanData(s, R) == R \subseteq s.act \ s.spent /\ Joined(s, R) \cap s.spent = {}
=============================================================================
