------------------------------- MODULE Pauli -------------------------------
(***************************************************************************)
(* Stabilizer (Heisenberg) semantics of the instructions that surface-sim  *)
(* emits.  A signed Pauli operator is [x, z, s, ok]: the sets of qubits on *)
(* which it has an X / Z component (Y = both, with the sign of +Y), its    *)
(* sign bit, and whether its expectation is still defined ("" means it is, *)
(* otherwise it names the instruction that made it random).                *)
(*                                                                         *)
(* Back(i, P) is the operator whose value BEFORE instruction i equals the  *)
(* value of P AFTER it, multiplied by the outcomes of the measurements in  *)
(* P.m (absolute measurement indices).  A product of outcomes is           *)
(* deterministic iff pulling it back never meets an anticommuting          *)
(* measurement or reset; this is exact, not an approximation.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

SymDiff(a, b) == (a \ b) \cup (b \ a)

Parity(S) == Cardinality(S) % 2
Xor(a, b) == (a + b) % 2
ToSet(seq) == {seq[i] : i \in 1..Len(seq)}

IdP == [x |-> {}, z |-> {}, s |-> 0, ok |-> ""]

Anti(P, Q) == Xor(Parity(P.x \cap Q.z), Parity(P.z \cap Q.x)) = 1

(* single-qubit gates on the set of qubits T, applied backwards *)
BackH(P, T) ==
    [P EXCEPT !.x = (P.x \ T) \cup (P.z \cap T),
              !.z = (P.z \ T) \cup (P.x \cap T),
              !.s = Xor(@, Parity(P.x \cap P.z \cap T))]
BackX(P, T)  == [P EXCEPT !.s = Xor(@, Parity(P.z \cap T))]
BackZ(P, T)  == [P EXCEPT !.s = Xor(@, Parity(P.x \cap T))]
BackY(P, T)  == [P EXCEPT !.s = Xor(@, Parity(SymDiff(P.x, P.z) \cap T))]
(* S X S^-1 = Y, hence S^-1 X S = -Y and S^-1 Y S = X *)
BackS(P, T)  == [P EXCEPT !.z = SymDiff(@, P.x \cap T),
                          !.s = Xor(@, Parity((P.x \cap T) \ P.z))]
BackSd(P, T) == [P EXCEPT !.z = SymDiff(@, P.x \cap T),
                          !.s = Xor(@, Parity(P.x \cap T \cap P.z))]

Touches(P, a, b) == a \in P.x \/ a \in P.z \/ b \in P.x \/ b \in P.z
B(b) == IF b THEN 1 ELSE 0

BackCX(P, a, b) ==
    IF ~Touches(P, a, b) THEN P ELSE
    [P EXCEPT !.x = IF a \in P.x THEN SymDiff(@, {b}) ELSE @,
              !.z = IF b \in P.z THEN SymDiff(@, {a}) ELSE @,
              !.s = Xor(@, B(a \in P.x /\ b \in P.z /\ ((b \in P.x) <=> (a \in P.z))))]
BackCZ(P, a, b) ==
    IF ~Touches(P, a, b) THEN P ELSE
    [P EXCEPT !.z = SymDiff(@, (IF a \in P.x THEN {b} ELSE {}) \cup (IF b \in P.x THEN {a} ELSE {})),
              !.s = Xor(@, B(a \in P.x /\ b \in P.x /\ ~((a \in P.z) <=> (b \in P.z))))]
Exch(S, a, b) == (S \ {a, b}) \cup (IF a \in S THEN {b} ELSE {}) \cup (IF b \in S THEN {a} ELSE {})
BackSW(P, a, b) == IF ~Touches(P, a, b) THEN P ELSE [P EXCEPT !.x = Exch(@, a, b), !.z = Exch(@, a, b)]

RECURSIVE BackPairs(_, _, _, _)
BackPairs(op, P, pairs, k) ==
    IF k = 0 THEN P ELSE
    LET a == pairs[k][1]
        b == pairs[k][2]
        Q == CASE op = "CX" -> BackCX(P, a, b)
               [] op = "CZ" -> BackCZ(P, a, b)
               [] op = "SWAP" -> BackSW(P, a, b)
    IN BackPairs(op, Q, pairs, k - 1)

(* P restricted to q must be I or the measured/reset Pauli of the basis *)
Clash(P, T, b) == CASE b = "Z" -> P.x \cap T
                    [] b = "X" -> P.z \cap T
                    [] b = "Y" -> SymDiff(P.x, P.z) \cap T
Kill(P, T, op) == [P EXCEPT !.ok = op]

BackReset(P, T, b) ==
    IF Clash(P, T, b) # {} THEN [P EXCEPT !.ok = "reset"]
    ELSE [P EXCEPT !.x = @ \ T, !.z = @ \ T]
(* M: the set of qubits of T whose outcome enters the product *)
BackMeas(P, T, M, b) ==
    IF Clash(P, T, b) # {} THEN [P EXCEPT !.ok = "measurement"]
    ELSE CASE b = "Z" -> [P EXCEPT !.z = SymDiff(@, M)]
           [] b = "X" -> [P EXCEPT !.x = SymDiff(@, M)]
           [] b = "Y" -> [P EXCEPT !.x = SymDiff(@, M), !.z = SymDiff(@, M)]

(* i: [op, t, b, k] with t a sequence of qubits (or of pairs), b the basis *)
(* and k the absolute index of the first outcome; m: outcomes of the product *)
Back(i, P, m) ==
    IF P.ok # "" THEN P ELSE
    CASE i.op = "H" -> BackH(P, ToSet(i.t))
      [] i.op = "X" -> BackX(P, ToSet(i.t))
      [] i.op = "Y" -> BackY(P, ToSet(i.t))
      [] i.op = "Z" -> BackZ(P, ToSet(i.t))
      [] i.op = "S" -> BackS(P, ToSet(i.t))
      [] i.op = "S_DAG" -> BackSd(P, ToSet(i.t))
      [] i.op \in {"CX", "CZ", "SWAP"} -> BackPairs(i.op, P, i.t, Len(i.t))
      [] i.op = "R" -> BackReset(P, ToSet(i.t), i.b)
      [] i.op = "M" ->
           BackMeas(P, ToSet(i.t), {i.t[j] : j \in {n \in 1..Len(i.t) : (i.k + n - 1) \in m}}, i.b)
      [] OTHER -> [P EXCEPT !.ok = "unsupported"]
=============================================================================
