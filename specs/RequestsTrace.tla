--------------------------- MODULE RequestsTrace ---------------------------
(***************************************************************************)
(* Trace specification: a case is a sequence of requests made to the real  *)
(* code, [op, flaw, raised, key, out, env, env2]; key stands for the valid *)
(* requests the answer may depend on, out for the answer, env and env2 for *)
(* the surroundings before and after.                                      *)
(***************************************************************************)
EXTENDS Requests, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, pc, memo, err
vars == <<cid, pc, memo, err>>
Init == cid \in 1..Len(Cases) /\ pc = 1 /\ memo = {} /\ err = ""
Ops == Cases[cid].ops
Step == /\ err = "" /\ pc > 0 /\ pc <= Len(Ops)
        /\ LET o == Ops[pc] IN
           /\ err' = IF ~KnownFlaw(o.flaw) THEN "unknown flaw"
                     ELSE Clause(memo, o.flaw, o.raised, o.key, o.out, o.env, o.env2)
           /\ memo' = IF o.raised THEN memo ELSE Learn(memo, o.key, o.out)
           /\ pc' = IF err' = "" THEN pc + 1 ELSE pc
        /\ UNCHANGED cid
Done == /\ pc > 0 /\ (err # "" \/ pc > Len(Ops))
        /\ IF err = "" THEN PrintT(<<"OK", Cases[cid].id>>) ELSE PrintT(<<"BAD", Cases[cid].id, pc, err>>)
        /\ pc' = -1 /\ UNCHANGED <<cid, memo, err>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
