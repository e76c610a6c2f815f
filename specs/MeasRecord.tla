----------------------------- MODULE MeasRecord -----------------------------
(***************************************************************************)
(* The measurement bookkeeping of a model.  The state is the record of the *)
(* circuit built so far: the sequence of [q, b] (qubit, basis) in the      *)
(* order in which outcomes are produced.  Everything else is derived.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Empty == <<>>
Measured(rec, list, b) == rec \o [i \in 1..Len(list) |-> [q |-> list[i], b |-> b]]

(* positions in the record of the outcomes of q, in order *)
Of(rec, q) == SelectSeq([i \in 1..Len(rec) |-> i], LAMBDA i : rec[i].q = q)
Count(rec, q) == Len(Of(rec, q))
Exists(rec, q, k) == k < Count(rec, q) /\ k >= -Count(rec, q)

(* the position of the k-th earliest (k >= 0) or (-k)-th latest outcome *)
Position(rec, q, k) == LET o == Of(rec, q) IN IF k >= 0 THEN o[k + 1] ELSE o[Len(o) + k + 1]
Offset(rec, q, k) == Position(rec, q, k) - Len(rec) - 1
=============================================================================
