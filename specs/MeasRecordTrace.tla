-------------------------- MODULE MeasRecordTrace --------------------------
(***************************************************************************)
(* Trace specification of MeasRecord: every case is a history of calls to  *)
(* one real model.  ops:                                                   *)
(*   meas: q (requested list), b (basis), emit (the <<qubit, basis>> of    *)
(*         the measurements in the returned circuit), raised               *)
(*   bad:  an invalid measurement request, raised                          *)
(*   other: any other operation, emit, raised                              *)
(*   look: q, k, raised, off    unknown: look-up of an unknown qubit       *)
(*   new:  raised                                                          *)
(***************************************************************************)
EXTENDS MeasRecord, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, pc, rec, err
vars == <<cid, pc, rec, err>>

Init == cid \in 1..Len(Cases) /\ pc = 1 /\ rec = Empty /\ err = ""
Case == Cases[cid]
Op == Case.ops[pc]

Clause(o) ==
    CASE o.op = "meas" -> IF o.raised THEN "rejected"
                          ELSE IF o.emit # [i \in 1..Len(o.q) |-> <<o.q[i], o.b>>] THEN "emitted" ELSE ""
      [] o.op \in {"bad", "unknown"} -> IF o.raised THEN "" ELSE "accepted"
      [] o.op = "other" -> IF o.raised THEN "rejected" ELSE IF o.emit # <<>> THEN "emitted" ELSE ""
      [] o.op = "new" -> IF o.raised THEN "rejected" ELSE ""
      [] o.op = "look" ->
            IF ~Exists(rec, o.q, o.k) THEN (IF o.raised THEN "" ELSE "named another outcome")
            ELSE IF o.raised THEN "outcome not found"
            ELSE IF o.off # Offset(rec, o.q, o.k) THEN "wrong outcome" ELSE ""
      [] OTHER -> "unknown call"

Step == /\ pc <= Len(Case.ops) /\ err = ""
        /\ err' = Clause(Op)
        /\ rec' = CASE Op.op = "meas" -> Measured(rec, Op.q, Op.b)
                    [] Op.op = "new" -> Empty
                    [] OTHER -> rec
        /\ pc' = pc + 1
        /\ UNCHANGED cid
Done == /\ pc <= Len(Case.ops) + 1 /\ (err # "" \/ pc > Len(Case.ops))
        /\ IF err = "" THEN PrintT(<<"OK", Case.id>>) ELSE PrintT(<<"BAD", Case.id, pc - 1, err>>)
        /\ pc' = Len(Case.ops) + 2
        /\ UNCHANGED <<cid, rec, err>>
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
