----------------------------- MODULE MergeTrace -----------------------------
(***************************************************************************)
(* Trace specification of merging.  A case is a history of merged blocks   *)
(* and, for every circuit (code) on its own, the same history:             *)
(*   codes:  for every code its qubits                                     *)
(*   blocks: sequence of [merged: steps, dets, obs; own: for every code    *)
(*           its steps, dets, obs; wait: for every code its waiting events;*)
(*           on: codes in the block, in the order in which they were given;*)
(*           ordered: outcomes must be recorded in that order]             *)
(* Outcomes are numbered from 1 over the whole history.  The machine reads *)
(* a merged step, moves every code and learns how outcomes are named.      *)
(***************************************************************************)
EXTENDS Merge, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, blk, t, ptr, names, err
vars == <<cid, blk, t, ptr, names, err>>
Case == Cases[cid]
Code == 1..Len(Case.codes)
Q(c) == Range(Case.codes[c])
Init == /\ cid \in 1..Len(Cases) /\ blk = 1 /\ t = 1 /\ err = ""
        /\ ptr = [c \in 1..Len(Cases[cid].codes) |-> 1] /\ names = {}
B == Case.blocks[blk]
On_ == Range(B.on)
Longest == CHOOSE n \in {Len(B.own[c].steps) : c \in On_} : \A c \in On_ : Len(B.own[c].steps) <= n
Spare(c) == Longest - Len(B.own[c].steps) - (t - ptr[c])  \* waits that are left
Pos(c) == CHOOSE i \in 1..Len(B.on) : B.on[i] = c
Rank(ns) == {<<n[1], <<Pos(n[2][1]), n[2][2]>>>> : n \in ns}

Step == /\ err = "" /\ blk <= Len(Case.blocks) /\ t <= Len(B.merged.steps)
        /\ LET s == B.merged.steps[t]
               mv == [c \in On_ |-> Move(Part(s, Q(c)), B.own[c].steps, ptr[c], B.wait[c], Spare(c) > 0)]
               new == UNION {IF mv[c] = "step" THEN Names(Part(s, Q(c)), B.own[c].steps[ptr[c]], c) ELSE {} : c \in On_}
           IN /\ err' = IF Stray(s, [c \in On_ |-> Q(c)]) THEN "foreign"
                        ELSE IF \E c \in On_ : mv[c] = "wrong" THEN "operations"
                        ELSE IF \A c \in On_ : mv[c] = "wait" THEN "idle step"
                        ELSE IF B.ordered /\ ~InOrder(Rank(new)) THEN "order"
                        ELSE ""
              /\ ptr' = [c \in Code |-> IF c \in On_ /\ mv[c] = "step" THEN ptr[c] + 1 ELSE ptr[c]]
              /\ names' = names \cup new
        /\ t' = t + 1
        /\ UNCHANGED <<cid, blk>>

Name(m) == IF \E n \in names : n[1] = m THEN (CHOOSE n \in names : n[1] = m)[2] ELSE <<0, m>>
Dets(ds) == [i \in 1..Len(ds) |-> [x |-> ds[i].x, m |-> {Name(k) : k \in Range(ds[i].m)}]]
OwnDets(c) == LET ds == B.own[c].dets IN [i \in 1..Len(ds) |-> [x |-> ds[i].x, m |-> {<<c, k>> : k \in Range(ds[i].m)}]]
RECURSIVE Cat(_)
Cat(on) == IF on = <<>> THEN <<>> ELSE OwnDets(Head(on)) \o Cat(Tail(on))
ObsOf(j) == {k \in 1..Len(B.merged.obs) : B.merged.obs[k].i = j - 1}
(* every logical qubit has an index of its own, in the order of the codes *)
RECURSIVE OwnObs(_)
OwnObs(on) == IF on = <<>> THEN <<>>
    ELSE LET w == B.own[Head(on)].obs IN [i \in 1..Len(w) |-> [k |-> i, c |-> Head(on), m |-> w[i].m, ok |-> w[i].i = i - 1]] \o OwnObs(Tail(on))
ObsOk == LET all == OwnObs(B.on) IN
    /\ Len(B.merged.obs) = Len(all)
    /\ \A j \in 1..Len(all) :
         /\ all[j].ok
         /\ Cardinality(ObsOf(j)) = 1
         /\ LET o == B.merged.obs[CHOOSE k \in ObsOf(j) : TRUE]
            IN /\ {Name(k) : k \in Range(o.m)} = {<<all[j].c, k>> : k \in Range(all[j].m)}
               /\ Len(o.m) = Len(all[j].m)

EndBlock == /\ err = "" /\ blk <= Len(Case.blocks) /\ t > Len(B.merged.steps)
            /\ err' = IF \E c \in On_ : ptr[c] # Len(B.own[c].steps) + 1 THEN "steps missing"
                      ELSE IF ~SameBag(Dets(B.merged.dets), Cat(B.on)) THEN "detectors"
                      ELSE IF ~ObsOk THEN "observables"
                      ELSE ""
            /\ blk' = IF err' = "" THEN blk + 1 ELSE blk
            /\ t' = 1 /\ ptr' = [c \in Code |-> 1]
            /\ UNCHANGED <<cid, names>>

Done == /\ t > 0 /\ (err # "" \/ blk > Len(Case.blocks))
        /\ IF err = "" THEN PrintT(<<"OK", Case.id>>) ELSE PrintT(<<"BAD", Case.id, blk, t - 1, err>>)
        /\ t' = 0 /\ UNCHANGED <<cid, blk, ptr, names, err>>
Next == (t > 0 /\ (Step \/ EndBlock)) \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
