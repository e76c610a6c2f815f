----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Trace specification: a case is a history of making, storing, loading,   *)
(* copying and changing real layouts and setups.  After every operation    *)
(* all the things are asked everything; o.new are the answers of a new     *)
(* thing, o.diff the answers [id, key, value] that changed.                *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, pc, heap, rec, built, err
vars == <<cid, pc, heap, rec, built, err>>
Fun(s) == LET D == {s[i][1] : i \in DOMAIN s} IN [k \in D |-> s[CHOOSE i \in DOMAIN s : s[i][1] = k][2]]
Init == /\ cid \in 1..Len(Cases) /\ pc = 1 /\ heap = <<>> /\ rec = <<>> /\ built = {} /\ err = ""
Ops == Cases[cid].ops

Diff(o, id) == LET s == SelectSeq(o.diff, LAMBDA d : d[1] = id) IN [i \in DOMAIN s |-> <<s[i][2], s[i][3]>>]
Makes == {"new", "load", "dump", "copy"}
Next1(o) ==
    CASE o.op = "new"  -> Append(heap, [kind |-> o.kind, c |-> Fun(o.new)])
      [] o.op = "load" -> Append(heap, [kind |-> ObjOf(heap[o.src].kind), c |-> Loaded(heap[o.src].kind, heap[o.src].c)])
      [] o.op = "dump" -> Append(heap, [kind |-> DictOf(heap[o.src].kind), c |-> Stored(heap[o.src].kind, heap[o.src].c)])
      [] o.op = "copy" -> Append(heap, heap[o.src])
      [] o.op = "rewrite" -> [heap EXCEPT ![o.id] = [kind |-> DictOf(heap[o.src].kind), c |-> Stored(heap[o.src].kind, heap[o.src].c)]]
      [] o.op = "set"  -> [heap EXCEPT ![o.id] = Changed(@, o.key, o.v)]
      [] o.op = "bulk" -> [heap EXCEPT ![o.id].c = UpdAll(@, Diff(o, o.id))]
      [] OTHER -> heap
(* a bulk change may change attributes only, or the key it is about *)
BulkOk(o) == \A i \in DOMAIN o.diff : o.diff[i][1] = o.id => o.diff[i][2][1] = o.key[1]
Rec1(o) == LET r == [id \in DOMAIN rec |-> UpdAll(rec[id], Diff(o, id))]
           IN IF o.op \in Makes THEN Append(r, Fun(o.new)) ELSE r
Things(o) == [i \in DOMAIN o.ids |-> heap[o.ids[i]]]
Clause(o, h, r) ==
    IF o.raised THEN "raised"
    ELSE IF o.op = "bulk" /\ ~BulkOk(o) THEN "change"
    ELSE IF o.op = "build" THEN
        (IF \E b \in built : b[1] = Things(o) /\ b[2] = o.cfg /\ b[3] # o.out THEN "circuit" ELSE "")
    ELSE LET odd == {id \in DOMAIN h : ~(h[id] = (IF id \in DOMAIN heap THEN heap[id] ELSE <<>>) /\ Diff(o, id) = <<>>)
                                       /\ ~Matches(h[id], r[id])}
         IN IF odd = {} THEN ""
            ELSE LET id == CHOOSE x \in odd : TRUE
                     k == CHOOSE y \in Wrong(h[id], r[id]) : TRUE
                 IN (IF id = Len(heap) + 1 THEN "made: " ELSE IF o.op \in {"set", "bulk", "rewrite"} /\ id = o.id THEN "changed: " ELSE "other: ")
                    \o k[1]
Step == /\ err = "" /\ pc > 0 /\ pc <= Len(Ops)
        /\ LET o == Ops[pc] IN
           IF o.raised THEN err' = "raised" /\ UNCHANGED <<heap, rec, built>>
           ELSE LET h == Next1(o)
                    r == Rec1(o)
                IN /\ heap' = h /\ rec' = r
                   /\ err' = Clause(o, h, r)
                   /\ built' = IF o.op = "build" THEN built \cup {<<Things(o), o.cfg, o.out>>} ELSE built
        /\ pc' = IF err' = "" THEN pc + 1 ELSE pc
        /\ UNCHANGED cid
Done == /\ pc > 0 /\ (err # "" \/ pc > Len(Ops))
        /\ IF err = "" THEN PrintT(<<"OK", Cases[cid].id>>) ELSE PrintT(<<"BAD", Cases[cid].id, pc, err>>)
        /\ pc' = -1 /\ UNCHANGED <<cid, heap, rec, built, err>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
