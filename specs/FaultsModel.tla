---------------------------- MODULE FaultsModel ----------------------------
(***************************************************************************)
(* Pulling watches back (Faults.tla) agrees with pushing errors forward,   *)
(* for every circuit of up to MaxLen instructions on two qubits and every  *)
(* Pauli error at every place; every outcome is its own detector.          *)
(***************************************************************************)
EXTENDS Faults, TLC
CONSTANTS MaxLen
VARIABLES instr, errs, n
vars == <<instr, errs, n>>
Q == {1, 2}
I(op, t, b, k) == [op |-> op, t |-> t, b |-> b, k |-> k]
Menu == {I(op, <<q>>, "", 0) : op \in {"H", "S", "X"}, q \in Q} \cup {I(op, <<<<a, 3 - a>>>>, "", 0) : op \in {"CX", "CZ"}, a \in Q}
        \cup {I("R", <<q>>, "Z", 0) : q \in Q} \cup {I("H", <<1, 2>>, "", 0), I("SWAP", <<<<1, 2>>>>, "", 0)}
        \cup {I("M", <<q>>, b, n) : q \in Q, b \in {"Z", "X", "Y"}} \cup {I("M", <<2, 1>>, "Z", n)}
Paulis == {p \in [x : SUBSET Q, z : SUBSET Q] : p.x \cup p.z # {}}
Err(at, p) == [at |-> at, p |-> p, x |-> p.x, z |-> p.z, m |-> {}]
Init == instr = <<>> /\ errs = {Err(0, p) : p \in Paulis} /\ n = 0

Has(S, q) == q \in S
Tog(S, q, b) == IF b THEN Diff(S, {q}) ELSE S
Push1(i, e, q, k) ==
    CASE i.op = "H" -> [e EXCEPT !.x = Tog(e.x, q, Has(e.x, q) # Has(e.z, q)), !.z = Tog(e.z, q, Has(e.x, q) # Has(e.z, q))]
      [] i.op = "S" -> [e EXCEPT !.z = Tog(@, q, Has(e.x, q))]
      [] i.op = "R" -> [e EXCEPT !.x = @ \ {q}, !.z = @ \ {q}]
      [] i.op = "M" -> [e EXCEPT !.m = IF (IF i.b = "Z" THEN Has(e.x, q) ELSE IF i.b = "X" THEN Has(e.z, q) ELSE Has(e.x, q) # Has(e.z, q))
                                       THEN Diff(@, {k}) ELSE @]
      [] OTHER -> e
Push2(i, e, a, b) ==
    CASE i.op = "CX" -> [e EXCEPT !.x = Tog(@, b, Has(e.x, a)), !.z = Tog(@, a, Has(e.z, b))]
      [] i.op = "CZ" -> [e EXCEPT !.z = Tog(Tog(@, a, Has(e.x, b)), b, Has(e.x, a))]
      [] i.op = "SWAP" -> [e EXCEPT !.x = {3 - q : q \in @}, !.z = {3 - q : q \in @}]
RECURSIVE Push(_, _, _)
Push(i, e, k) == IF k > Len(i.t) THEN e
                 ELSE Push(i, IF Double(i) THEN Push2(i, e, i.t[k][1], i.t[k][2]) ELSE Push1(i, e, i.t[k], i.k + k), k + 1)
Next == /\ Len(instr) < MaxLen
        /\ \E i \in Menu :
            /\ instr' = Append(instr, i)
            /\ errs' = {Push(i, e, 1) : e \in errs} \cup {Err(Len(instr) + 1, p) : p \in Paulis}
            /\ n' = IF i.op = "M" THEN n + Len(i.t) ELSE n
Spec == Init /\ [][Next]_vars
Reads == [k \in 1..n |-> {k}]
RECURSIVE Watch(_)
Watch(at) == IF at = Len(instr) THEN Blind(2) ELSE Back(instr[at + 1], Watch(at + 1), Reads)
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN {} ELSE LET q == CHOOSE x \in S : TRUE IN Diff(f[q], Total(f, S \ {q}))
Agree == \A at \in 0..Len(instr) : LET w == Watch(at) IN
            \A e \in errs : e.at = at => e.m = Diff(Total(w.x, e.p.x), Total(w.z, e.p.z))
Listed == \A at \in 1..Len(instr) : LET w == Watch(at)
                                       i == instr[at] IN
            Flips(i, w, Reads) = {e.m : e \in {y \in errs : y.at = at /\ (y.p.x \cup y.p.z) \subseteq
                                                 (IF Double(i) THEN Q ELSE {i.t[k] : k \in DOMAIN i.t}) /\
                                                 (Double(i) \/ Cardinality(y.p.x \cup y.p.z) = 1)}} \cup {{}}
                                 \cup (IF i.op = "M" THEN {{i.k + k} : k \in DOMAIN i.t} ELSE {})
=============================================================================
