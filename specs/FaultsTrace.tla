---------------------------- MODULE FaultsTrace ----------------------------
(***************************************************************************)
(* Trace specification: a case is one recorded experiment.  The watch is   *)
(* pulled back over all its instructions, the faults are collected, then   *)
(* walks from every detector are tried.                                    *)
(***************************************************************************)
EXTENDS Faults, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, pc, w, sigs, v, err
vars == <<cid, pc, w, sigs, v, err>>
C == Cases[cid]
Ran(f) == {f[x] : x \in DOMAIN f}
Reads == [k \in DOMAIN C.reads |-> Ran(C.reads[k])]
Kind == Ran(C.kind)
Init == /\ cid \in 1..Len(Cases) /\ pc = Len(Cases[cid].instr) /\ w = Blind(Cases[cid].n)
        /\ sigs = {} /\ v = -1 /\ err = ""

(* Pauli errors on data qubits between two rounds *)
Unseen(at) == \E i \in DOMAIN C.mids : C.mids[i].at = at /\ \E q \in Ran(C.mids[i].data) : {} \in {Seen(s) : s \in {w.x[q], w.z[q], Diff(w.x[q], w.z[q])}}
Walk == /\ pc > 0 /\ err = ""
        /\ LET i == C.instr[pc]
               f == sigs \cup Flips(i, w, Reads)
           IN IF ~Known(i) THEN err' = "unknown instruction" /\ UNCHANGED <<w, sigs>>
              ELSE /\ err' = IF ~Double(i) /\ \E k \in DOMAIN i.t : Random(i, w, i.t[k]) THEN "random detector"
                             ELSE IF Unseen(pc) THEN "data error unnoticed" ELSE ""
                   /\ w' = Back(i, w, Reads) /\ sigs' = f
        /\ pc' = pc - 1 /\ UNCHANGED <<cid, v>>
(* all the faults are known *)
Start == /\ pc = 0 /\ v = -1 /\ err = ""
         /\ LET S == Clean(sigs) IN
            /\ err' = IF C.d >= 2 /\ Alone(S) THEN "a single fault"
                      ELSE IF C.d >= 3 /\ InPairs(S) THEN "two faults"
                      ELSE IF C.walks /\ C.d >= 2 /\ Loops(S, Kind) THEN "a single fault in the measured basis"
                      ELSE ""
            /\ w' = Adj(Edges(S, Kind), {0} \cup Kind)
         /\ v' = (IF C.walks THEN 0 ELSE C.dets + 1) /\ UNCHANGED <<cid, pc, sigs>>
Try == /\ pc = 0 /\ v >= 0 /\ v <= C.dets /\ err = ""
       /\ err' = IF v \in DOMAIN w /\ OddWalk(w, {m \in DOMAIN w : m >= v}, v, C.d - 1) THEN "fewer faults than the distance" ELSE ""
       /\ v' = v + 1 /\ UNCHANGED <<cid, pc, w, sigs>>
Done == /\ pc >= 0 /\ (err # "" \/ (pc = 0 /\ v > C.dets))
        /\ IF err = "" THEN PrintT(<<"OK", C.id>>) /\ PrintT(<<"COUNT", C.id, Cardinality(sigs), Cardinality(Hyper(sigs, Kind)), IF OddWalk(w, DOMAIN w, 0, C.d) THEN 1 ELSE 0>>)
           ELSE PrintT(<<"BAD", C.id, err, v>>)
        /\ pc' = -1 /\ UNCHANGED <<cid, w, sigs, v, err>>
Next == Walk \/ Start \/ Try \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
