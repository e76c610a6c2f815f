----------------------------- MODULE StoreModel -----------------------------
(***************************************************************************)
(* An implementation of Store.tla whose things refer to cells that they    *)
(* may share.  TLC checks that the answers of every thing are those of     *)
(* Store.tla when making a thing copies the cells, and that they are not   *)
(* (the clauses notice) when one way of making shares, forgets or delays.  *)
(***************************************************************************)
EXTENDS Store
CONSTANTS Fault, MaxOps, MaxThings
Keys == {<<"glob", "a">>, <<"per", "a", "q">>}
Vals == {<<"num", "1">>, <<"var", "u">>}
VARIABLES heap, ref, cell, noticed, ops
vars == <<heap, ref, cell, noticed, ops>>
(* ref[i]: key -> cell; var[i] are the cells of the free parameters *)
Seen(kind, r, s) == [k \in DOMAIN r |-> s[r[k]]]
Qs == {<<"param", "a">>, <<"param", "a", "q">>, <<"free", "u">>}
Rec(h, r, s) == [id \in DOMAIN h |->
    LET c == Seen(h[id].kind, r[id], s)
        t == [kind |-> h[id].kind, c |-> c]
    IN IF t.kind = "setup" THEN [k \in Qs |-> Answer(t, k)] ELSE c]
Odd(h, r, s) == LET x == Rec(h, r, s) IN \E id \in DOMAIN h : ~Matches(h[id], x[id])

Init == /\ \E v \in Vals : cell = <<v>> /\ heap = <<[kind |-> "setupdict", c |-> [k \in {<<"glob", "a">>} |-> v]]>>
        /\ ref = <<[k \in {<<"glob", "a">>} |-> 1]>> /\ noticed = FALSE /\ ops = 0
More == ~noticed /\ ops < MaxOps /\ ops' = ops + 1

(* fresh cells for a function of values *)
RECURSIVE Alloc(_, _, _)
Alloc(c, D, s) == IF D = {} THEN <<<<>>, s>>
    ELSE LET k == CHOOSE x \in D : TRUE
             rest == Alloc(c, D \ {k}, Append(s, c[k]))
         IN <<[x \in DOMAIN rest[1] \cup {k} |-> IF x = k THEN Len(s) + 1 ELSE rest[1][x]], rest[2]>>
Make(src, how) ==
    /\ More /\ Len(heap) < MaxThings
    /\ LET kind == heap[src].kind
           now == Seen(kind, ref[src], cell)
           new == IF how = "load" THEN [kind |-> "setup", c |-> Loaded(kind, heap[src].c)]
                  ELSE IF how = "dump" THEN [kind |-> "setupdict", c |-> Stored(kind, heap[src].c)]
                  ELSE heap[src]
           real == IF how = "load" THEN Loaded(kind, now) ELSE IF how = "dump" THEN Stored(kind, now) ELSE now
           kept == IF Fault = "forget" /\ how = "dump" THEN Only(real, LAMBDA k : k[1] # "per")
                   ELSE IF Fault = "unvar" /\ how = "load" THEN Only(real, LAMBDA k : k[1] # "var") ELSE real
           a == Alloc(kept, DOMAIN kept, cell)
           share == Fault = how
           r == IF share THEN [k \in DOMAIN a[1] |-> IF k \in DOMAIN ref[src] THEN ref[src][k] ELSE a[1][k]] ELSE a[1]
       IN /\ heap' = Append(heap, new) /\ ref' = Append(ref, r) /\ cell' = a[2]
          /\ noticed' = Odd(heap', ref', cell')
Change(id, k, v) ==
    /\ More
    /\ heap' = [heap EXCEPT ![id] = Changed(@, k, v)]
    /\ LET old == ref[id]
           reg == heap[id].kind = "setup" /\ v[1] = "var" /\ <<"var", v[2]>> \notin DOMAIN old
           s1 == IF k \in DOMAIN old THEN [cell EXCEPT ![old[k]] = v] ELSE Append(cell, v)
           r1 == IF k \in DOMAIN old THEN old ELSE [x \in DOMAIN old \cup {k} |-> IF x = k THEN Len(s1) ELSE old[x]]
           s2 == IF reg THEN Append(s1, Unset) ELSE s1
           r2 == IF reg THEN [x \in DOMAIN r1 \cup {<<"var", v[2]>>} |-> IF x = <<"var", v[2]>> THEN Len(s2) ELSE r1[x]] ELSE r1
       IN cell' = s2 /\ ref' = [ref EXCEPT ![id] = r2]
    /\ noticed' = Odd(heap', ref', cell')
Next == \/ \E id \in DOMAIN heap : IF heap[id].kind = "setup" THEN Make(id, "dump") \/ Make(id, "copy") ELSE Make(id, "load")
        \/ \E id \in DOMAIN heap : \/ \E k \in Keys, v \in Vals : Change(id, k, v)
                                   \/ heap[id].kind = "setup" /\ Change(id, <<"var", "u">>, <<"num", "2">>)
Spec == Init /\ [][Next]_vars
Quiet == ~noticed
=============================================================================
