--------------------------- MODULE DetectorsTrace ---------------------------
(***************************************************************************)
(* Trace specification: histories of calls to the real detector builder,   *)
(* with the detectors it returned and whether it raised, are run on the    *)
(* machine of Detectors.tla, one call per step.  A call that has to be     *)
(* rejected must raise and changes nothing; every other call must not.     *)
(* Unknown labels are ancilla 0; "bad" calls are ill-typed.                *)
(***************************************************************************)
EXTENDS Detectors, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
ToSet(q) == {q[i] : i \in 1..Len(q)}

VARIABLES cid, pc, st, bad
vars == <<cid, pc, st, bad>>

Init == cid \in 1..Len(Cases) /\ pc = 1 /\ st = Fresh(Cases[cid].n) /\ bad = ""

MapOf(u) == [a \in 1..Len(u) |-> ToSet(u[a])]
(* the call has to be rejected *)
Reject(s, o) ==
    CASE o.op = "act" -> 0 \in ToSet(o.s) \/ ~CanActivate(s, ToSet(o.s))
      [] o.op = "deact" -> 0 \in ToSet(o.s) \/ ~CanDeactivate(s, ToSet(o.s))
      [] o.op = "gate" -> o.unknown \/ ~Invertible(MapOf(o.u))
      [] o.op \in {"round", "data"} -> 0 \in ToSet(o.sel)
      [] o.op = "bad" -> TRUE
      [] OTHER -> FALSE
(* the history is one the property speaks about *)
Legal(s, o) ==
    CASE o.op = "deact" -> CleanCut(s, ToSet(o.s))
      [] o.op = "gate" -> CanGate(s, MapOf(o.u))
      [] o.op = "round" -> CanRound(s)
      [] o.op = "data" -> CanData(s, ToSet(o.s))
      [] OTHER -> TRUE

Ancs(o) == [k \in 1..Len(o.dets) |-> o.dets[k].a]
Emitted(o, dom) == Len(o.dets) = Cardinality(dom) /\ ToSet(Ancs(o)) = dom
Match(d, want) == /\ ToSet(d.m) = want
                  /\ Len(d.m) = Cardinality(want)
DetClause(s, o, c) ==
    LET dom == IF o.op = "round" THEN 1..c.n ELSE ToSet(o.s)
        all == TLCEval(IF o.op = "round" THEN RoundDets(s, c.frame, c.reset) ELSE s.gen)
        idx(a) == CHOOSE k \in 1..Len(o.s) : o.s[k] = a
        want(a) == IF a \notin ToSet(o.sel) THEN {}
                   ELSE IF o.op = "round" THEN all[a]
                   ELSE DataDet(s, a, c.frame, c.reset, ToSet(o.sup[idx(a)]))
        time == IF o.op = "round" THEN 2 * s.rounds ELSE 2 * s.rounds - 1
    IN CASE ~Emitted(o, dom) -> "emitted"
         [] \E k \in 1..Len(o.dets) : o.dets[k].t # time -> "round number"
         [] \E k \in 1..Len(o.dets) : ~Match(o.dets[k], want(o.dets[k].a)) -> "outcomes"
         [] OTHER -> ""

After(s, o) ==
    CASE o.op = "act" -> DoActivate(s, ToSet(o.s))
      [] o.op = "deact" -> DoDeactivate(s, ToSet(o.s))
      [] o.op = "gate" -> DoGate(s, MapOf(o.u))
      [] o.op = "round" -> DoRound(s)
      [] o.op = "data" -> DoData(s, ToSet(o.s))
      [] o.op = "new" -> Fresh(Len(s.cnt))
      [] OTHER -> s

Ops == Cases[cid].ops
Step ==
    /\ bad = "" /\ pc > 0 /\ pc <= Len(Ops)
    /\ LET o == Ops[pc]
           c == Cases[cid]
           r == Reject(st, o)
           v == IF r # o.raised THEN (IF r THEN "accepted" ELSE "rejected")
                ELSE IF r THEN ""
                ELSE IF ~Legal(st, o) THEN "illegal"
                ELSE IF o.op \in {"round", "data"} THEN DetClause(st, o, c) ELSE ""
       IN /\ bad' = v
          /\ st' = IF v = "" /\ ~r THEN After(st, o) ELSE st
          /\ pc' = IF v = "" THEN pc + 1 ELSE pc
          /\ UNCHANGED cid
Done ==
    /\ pc > 0 /\ (bad # "" \/ pc > Len(Ops))
    /\ IF bad = "" THEN PrintT(<<"OK", Cases[cid].id>>) ELSE PrintT(<<"BAD", Cases[cid].id, pc, bad>>)
    /\ pc' = -1
    /\ UNCHANGED <<cid, st, bad>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
