---------------------------- MODULE DrawingModel ----------------------------
(***************************************************************************)
(* Drawing a small layout in any order, one item at a time: the acceptable *)
(* items, and items spoiled in one respect.  Every complete picture that   *)
(* only consists of accepted items shows the layout; spoiled items are     *)
(* refused whatever has been drawn before.                                 *)
(***************************************************************************)
EXTENDS Drawing, TLC

(* a square and, beside it, an ancilla with two neighbours *)
L == [xy   |-> <<<<0, 0>>, <<2, 0>>, <<0, 2>>, <<2, 2>>, <<1, 1>>, <<3, 1>>>>,
      cls  |-> <<"data", "data", "data", "data", "z_type", "x_type">>,
      name |-> <<"D1", "D2", "D3", "D4", "Z1", "X1">>,
      nbr  |-> <<<<>>, <<>>, <<>>, <<>>, <<1, 2, 3, 4>>, <<2, 4>>>>]
Colour == [data |-> "w", z_type |-> "b", x_type |-> "r"]
Kinds == {"circle", "text", "patch", "line"}

Good == {[k |-> "circle", pts |-> <<L.xy[q]>>, col |-> Colour[L.cls[q]], s |-> ""] : q \in Qubits(L)}
   \cup {[k |-> "text", pts |-> <<L.xy[q]>>, col |-> "k", s |-> L.name[q]] : q \in Ancs(L)}
   \cup {[k |-> "line", pts |-> <<L.xy[6], L.xy[d]>>, col |-> "r", s |-> ""] : d \in {2, 4}}
   \cup {[k |-> "patch", pts |-> <<L.xy[1], L.xy[2], L.xy[4], L.xy[3]>>, col |-> "b", s |-> ""],
         [k |-> "patch", pts |-> <<L.xy[4], L.xy[6], L.xy[2]>>, col |-> "r", s |-> ""]}
Bad == {[k |-> "patch", pts |-> <<L.xy[1], L.xy[4], L.xy[2], L.xy[3]>>, col |-> "b", s |-> ""],   \* crosses itself
        [k |-> "patch", pts |-> <<L.xy[4], L.xy[2]>>, col |-> "r", s |-> ""],
        [k |-> "patch", pts |-> <<L.xy[1], L.xy[2], L.xy[3]>>, col |-> "b", s |-> ""],
        [k |-> "line", pts |-> <<L.xy[5], L.xy[6]>>, col |-> "r", s |-> ""],
        [k |-> "text", pts |-> <<L.xy[1]>>, col |-> "k", s |-> "D2"],
        [k |-> "circle", pts |-> <<<<1, 0>>>>, col |-> "w", s |-> ""]}

VARIABLE shown
Init == shown = {}
FactOf(it) == CHOOSE f \in Facts(L, it) : TRUE
Put(it) == /\ ItemClause(L, Kinds, shown, it) = ""
           /\ ColourOK(L, shown, FactOf(it), it)
           /\ shown' = shown \cup {[f |-> FactOf(it), col |-> it.col]}
Next == \E it \in Good : Put(it)
Spec == Init /\ [][Next]_shown

Refused == \A it \in Bad : ItemClause(L, Kinds, shown, it) # ""
Once == \A f \in {g.f : g \in shown} : \A it \in Good : f \in Facts(L, it) => ItemClause(L, Kinds, shown, it) = "drawn twice"
(* a circle in the colour of another class is refused once that class has been drawn *)
Colours == \A it \in Good : \A q \in Ancs(L) :
    (it.k = "circle" /\ L.cls[FactOf(it)[2]] = "data" /\ [f |-> <<"circle", q, 0>>, col |-> Colour[L.cls[q]]] \in shown)
        => ~ColourOK(L, shown, FactOf(it), [it EXCEPT !.col = Colour[L.cls[q]]])
Subset == {g.f : g \in shown} \subseteq Wanted(L, Kinds)
(* the good items are never refused but for being there already *)
Live == \A it \in Good : ItemClause(L, Kinds, shown, it) \in {"", "drawn twice"}
=============================================================================
