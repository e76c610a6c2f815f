---------------------------- MODULE LayersTrace ----------------------------
(***************************************************************************)
(* Trace specification: a case is one circuit, recorded with a noiseless   *)
(* and with a noisy model, as two sequences of events                      *)
(*    ideal:  [e: "op", g, q] or [e: "tick"]                               *)
(*    noisy:  [e: "op", g, q], [e: "ch", q] or [e: "tick"]                 *)
(* The machine reads both in parallel, one separator at a time.  Idling is *)
(* visible in the ideal circuit only; everything else must agree.          *)
(* inc: number of rounds, gates and read-outs in the circuit (-1: noise is  *)
(* not only at these), per: channels per data qubit of incoming noise,     *)
(* block: the circuit is a single block.                                   *)
(***************************************************************************)
EXTENDS Layers, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, i, j, step, err
vars == <<cid, i, j, step, err>>
Init == cid \in 1..Len(Cases) /\ i = 1 /\ j = 1 /\ step = 1 /\ err = ""
Case == Cases[cid]

(* the position of the separator that ends the step starting at k *)
RECURSIVE EndOf(_, _)
EndOf(s, k) == IF k > Len(s) \/ s[k].e = "tick" THEN k ELSE EndOf(s, k + 1)

Slice(s, a, b) == SubSeq(s, a, b - 1)
Qubits(s) == [k \in 1..Len(s) |-> s[k].q]
IsOp(x) == x.e = "op"
IsCh(x) == x.e = "ch"
Real(s) == LET t == SelectSeq(s, LAMBDA x : x.e = "op" /\ x.g # "I") IN {<<t[k].g, t[k].q>> : k \in 1..Len(t)}

Read == /\ err = "" /\ (i <= Len(Case.ideal) + 1 \/ j <= Len(Case.noisy) + 1)
        /\ LET ei == EndOf(Case.ideal, i)
               ej == EndOf(Case.noisy, j)
               a == Slice(Case.ideal, i, ei)
               b == Slice(Case.noisy, j, ej)
           IN /\ err' = IF (i > Len(Case.ideal) + 1) \/ (j > Len(Case.noisy) + 1) \/ ((ei > Len(Case.ideal)) # (ej > Len(Case.noisy)))
                        THEN "steps differ"
                        ELSE IF Real(a) # Real(b) THEN "operations differ"
                        ELSE StepClause(Qubits(SelectSeq(a, IsOp)), Qubits(SelectSeq(b, IsCh)),
                                        Elems(Case.part), Elems(Case.data), Case.full)
              /\ i' = ei + 1 /\ j' = ej + 1
        /\ step' = step + 1
        /\ UNCHANGED cid
(* the events between separators, one sequence per step *)
RECURSIVE Steps(_, _)
Steps(s, k) == IF k > Len(s) + 1 THEN <<>> ELSE LET e == EndOf(s, k) IN <<Slice(s, k, e)>> \o Steps(s, e + 1)
Incoming == Case.inc < 0 \/ IncomingOnce(Case.noisy, Steps(Case.noisy, 1), Elems(Case.data), Case.per, Case.inc, Case.block)

Done == /\ step > 0 /\ (err # "" \/ (i > Len(Case.ideal) + 1 /\ j > Len(Case.noisy) + 1))
        /\ LET v == IF err = "" /\ ~Incoming THEN "incoming noise" ELSE err
           IN IF v = "" THEN PrintT(<<"OK", Case.id>>) ELSE PrintT(<<"BAD", Case.id, step - 1, v>>)
        /\ step' = 0
        /\ UNCHANGED <<cid, i, j, err>>
Next == (step > 0 /\ Read) \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
