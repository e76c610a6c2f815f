---------------------------- MODULE LogicalTrack ----------------------------
(***************************************************************************)
(* The value that the logical operators of a set of codes must have after  *)
(* preparing all of them in one basis from a bitstring and applying logical*)
(* gates.  A program is                                                    *)
(*   basis : "Z" or "X",                                                   *)
(*   sups  : per logical qubit, the support of its operator in that basis, *)
(*   init  : the data qubits initialised to 1,                             *)
(*   gates : sequence of [g, a, b] with g in {"s","h","cnot","x","z"}.     *)
(* The state is [v, h]: the value per logical qubit, and whether an odd    *)
(* number of S gates has been applied (S^2 = Z flips the X operator).      *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

LOCAL Par(S) == Cardinality(S) % 2
LOCAL Set(q) == {q[i] : i \in 1..Len(q)}

LTStart(p) == [v |-> [i \in 1..Len(p.sups) |-> Par(Set(p.sups[i]) \cap Set(p.init))],
               h |-> [i \in 1..Len(p.sups) |-> 0]]

LTGate(p, s, g) ==
    CASE g.g = "cnot" /\ p.basis = "Z" -> [s EXCEPT !.v[g.b] = (@ + s.v[g.a]) % 2]
      [] g.g = "cnot" /\ p.basis = "X" -> [s EXCEPT !.v[g.a] = (@ + s.v[g.b]) % 2]
      [] g.g = "s" -> [s EXCEPT !.h[g.a] = 1 - @,
                                !.v[g.a] = IF p.basis = "X" /\ s.h[g.a] = 1 THEN 1 - @ ELSE @]
      [] g.g = "x" -> [s EXCEPT !.v[g.a] = IF p.basis = "Z" THEN 1 - @ ELSE @]
      [] g.g = "z" -> [s EXCEPT !.v[g.a] = IF p.basis = "X" THEN 1 - @ ELSE @]
      [] g.g = "h" -> s

RECURSIVE LTRun(_, _, _)
LTRun(p, s, k) == IF k > Len(p.gates) THEN s ELSE LTRun(p, LTGate(p, s, p.gates[k]), k + 1)

LTValue(p, i) == LTRun(p, LTStart(p), 1).v[i]
=============================================================================
