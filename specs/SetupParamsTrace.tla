-------------------------- MODULE SetupParamsTrace --------------------------
(***************************************************************************)
(* Trace specification: histories of calls to one real Setup.  ops:        *)
(*   load:  dicts, a list of [q, p (list of [p, v])], raised               *)
(*   param: p, v, q, raised          var: x, v, raised                     *)
(*   look:  p, q, raised, v          lookvar: x, raised, v                 *)
(*   free:  names                    bad: raised                           *)
(*   dur:   x, raised, v             (gate durations: Case.dur)            *)
(***************************************************************************)
EXTENDS SetupParams, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, pc, T, err
vars == <<cid, pc, T, err>>
Init == cid \in 1..Len(Cases) /\ pc = 1 /\ T = EmptyTables /\ err = ""
Case == Cases[cid]
Op == Case.ops[pc]
ToSet(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE Fill(_, _, _)
Fill(R, q, l) == IF l = <<>> THEN R ELSE Fill(SetParam(R, l[1].p, l[1].v, q), q, Tail(l))
RECURSIVE Load(_, _)
Load(R, ds) == IF ds = <<>> THEN R ELSE Load(Fill(R, ds[1].q, ds[1].p), Tail(ds))
Repeated(ds) == \E i, j \in 1..Len(ds) : i < j /\ ds[i].q = ds[j].q /\ ds[i].q # <<>>

Answer(o, v) == IF v = NoVal THEN (IF o.raised THEN "" ELSE "answered")
                ELSE IF o.raised THEN "not found" ELSE IF o.v # v THEN "wrong value" ELSE ""
Durs == {d \in ToSet(Case.dur) : d.p = Op.x}
Clause(o) ==
    CASE o.op = "load" -> IF Repeated(o.dicts) THEN (IF o.raised THEN "" ELSE "accepted")
                          ELSE IF o.raised THEN "rejected" ELSE ""
      [] o.op \in {"param", "var"} -> IF o.raised THEN "rejected" ELSE ""
      [] o.op = "bad" -> IF o.raised THEN "" ELSE "accepted"
      [] o.op = "look" -> Answer(o, Look(T, o.p, o.q))
      [] o.op = "lookvar" -> Answer(o, LookVar(T, o.x))
      [] o.op = "dur" -> Answer(o, IF Durs = {} THEN NoVal ELSE (CHOOSE d \in Durs : TRUE).v)
      [] o.op = "free" -> IF ToSet(o.names) # Unset(T) \/ Len(o.names) # Cardinality(Unset(T)) THEN "free parameters" ELSE ""
      [] OTHER -> "unknown call"
Step == /\ pc <= Len(Case.ops) /\ err = ""
        /\ err' = Clause(Op)
        /\ T' = CASE Op.op = "load" -> IF Op.raised THEN EmptyTables ELSE Load(EmptyTables, Op.dicts)
                  [] Op.op = "param" -> SetParam(T, Op.p, Op.v, Op.q)
                  [] Op.op = "var" -> SetVar(T, Op.x, Op.v)
                  [] OTHER -> T
        (* a setup that was not created cannot be asked *)
        /\ pc' = IF Op.op = "load" /\ Op.raised THEN Len(Case.ops) + 1 ELSE pc + 1
        /\ UNCHANGED cid
Done == /\ pc <= Len(Case.ops) + 1 /\ (err # "" \/ pc > Len(Case.ops))
        /\ IF err = "" THEN PrintT(<<"OK", Case.id>>) ELSE PrintT(<<"BAD", Case.id, pc - 1, err>>)
        /\ pc' = Len(Case.ops) + 2
        /\ UNCHANGED <<cid, T, err>>
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
