-------------------------- MODULE SetupParamsModel --------------------------
(* All histories of updates of a small setup.  The look-up is checked      *)
(* against its declarative reading, and every update against what it may   *)
(* change.                                                                 *)
EXTENDS SetupParams, TLC
CONSTANTS Params, Nums, Vars
Tuples == {<<"a">>, <<"a", "b">>}
Num(n) == [k |-> "num", n |-> n, s |-> ""]
Vals == {Num(n) : n \in Nums} \cup {[k |-> "var", n |-> 0, s |-> x] : x \in Vars}

VARIABLES T
Init == T = EmptyTables
Next == \/ \E p \in Params, v \in Vals, q \in Tuples \cup {<<>>} : T' = SetParam(T, p, v, q)
        \/ \E x \in Vars, n \in Nums : T' = SetVar(T, x, Num(n))
Spec == Init /\ [][Next]_T

(* declarative: the candidate of least rank, own before parent and specific before global *)
Chain(p) == IF HasParent(p) THEN <<p, Parent(p)>> ELSE <<p>>
Cand(p, q) ==
    UNION {{<<2 * g, e.v>> : e \in {e \in T.per : e.q = q /\ e.p = Chain(p)[g]}}
           \cup (IF Chain(p)[g] \in DOMAIN T.glob THEN {<<2 * g + 1, T.glob[Chain(p)[g]]>>} ELSE {})
           : g \in 1..Len(Chain(p))}
Best(p, q) == LET C == Cand(p, q) IN
    IF C = {} THEN NoVal ELSE (CHOOSE c \in C : \A d \in C : c[1] <= d[1])[2]
Declarative == \A p \in Params, q \in Tuples : Find(T, p, q) = Best(p, q)
Fails == \A p \in Params, q \in Tuples :
            Look(T, p, q) = NoVal <=> (Cand(p, q) = {} \/ (Best(p, q).k = "var" /\ Best(p, q).s \in Unset(T)))
Resolved == \A p \in Params, q \in Tuples : Look(T, p, q).k \in {"num", "none"}
Registered == \A p \in Params, q \in Tuples : Find(T, p, q).k = "var" => Find(T, p, q).s \in DOMAIN T.var

(* an update is seen by the look-ups that it concerns and by nothing else *)
InChain(r, p) == \E g \in 1..Len(Chain(p)) : Chain(p)[g] = r
FrameParam == \A r \in Params, v \in Vals, s \in Tuples \cup {<<>>} :
    LET U == SetParam(T, r, v, s)
    IN /\ \A p \in Params, q \in Tuples : (InChain(r, p) /\ s \in {q, <<>>}) \/ Look(U, p, q) = Look(T, p, q)
       /\ s # <<>> => Find(U, r, s) = v
       /\ s = <<>> => \A q \in Tuples : (\E e \in T.per : e.q = q /\ e.p = r) \/ Find(U, r, q) = v
FrameVar == \A x \in Vars, n \in Nums :
    LET U == SetVar(T, x, Num(n))
    IN \A p \in Params, q \in Tuples :
          Look(U, p, q) = IF Best(p, q).k = "var" /\ Best(p, q).s = x THEN Num(n) ELSE Look(T, p, q)
=============================================================================
