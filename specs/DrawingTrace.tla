---------------------------- MODULE DrawingTrace ----------------------------
(***************************************************************************)
(* Trace specification: the items which the real code adds to the axes,    *)
(* read one by one; then the axes themselves.                              *)
(*   Case: xy, cls, name, nbr (the layout), own (qubits with colours of    *)
(*   their own: [k, q, col]), kinds (requested), items ([k, pts, col, s,   *)
(*   z, r]; z: depth, r: radius or font size), lim (x0, x1, y0, y1), pad,  *)
(*   flip, dims (the dimension of the coordinates of each qubit; there is  *)
(*   a picture in the plane only), raised, size (font size), sizes ([k, q, *)
(*   r]: own font sizes and radii)                                         *)
(***************************************************************************)
EXTENDS Drawing, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, pc, shown, err
vars == <<cid, pc, shown, err>>
Init == cid \in 1..Len(Cases) /\ pc = 1 /\ shown = {} /\ err = ""
Case == Cases[cid]
Kinds == Elems(Case.kinds)
Item == Case.items[pc]
Own(f) == {o \in Elems(Case.own) : o.k = f[1] /\ o.q = f[2]}
OwnSize(f) == {o \in Elems(Case.sizes) : o.k = f[1] /\ o.q = f[2]}

(* of the things the item may stand for, one that has not been drawn yet *)
Fact == LET F == {f \in Facts(Case, Item) : ~\E g \in shown : g.f = f} IN CHOOSE f \in F : TRUE
Plain == {g \in shown : Own(g.f) = {}}
Clause(fact) ==
    IF Own(fact) # {} THEN (IF \E o \in Own(fact) : o.col # Item.col THEN "own colour" ELSE "")
    ELSE IF ~ColourOK(Case, Plain, fact, Item) THEN "colour" ELSE ""
SizeClause(fact) ==
    IF OwnSize(fact) # {} THEN (IF \E o \in OwnSize(fact) : o.r # Item.r THEN "own size" ELSE "")
    ELSE IF Item.k = "text" /\ Item.r # Case.size THEN "font size" ELSE ""

Draw == /\ err = "" /\ pc <= Len(Case.items)
        /\ LET c == ItemClause(Case, Kinds, shown, Item)
               fact == TLCEval(Fact)
               e == IF c # "" THEN c ELSE IF Clause(fact) # "" THEN Clause(fact) ELSE SizeClause(fact)
           IN /\ err' = e
              /\ shown' = IF e = "" THEN shown \cup {[f |-> fact, col |-> Item.col]} ELSE shown
        /\ pc' = pc + 1
        /\ UNCHANGED cid

Depth(k) == {Case.items[i].z : i \in {j \in 1..Len(Case.items) : Case.items[j].k = k}}
Below(k, l) == \A a \in Depth(k), b \in Depth(l) : a < b
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
X == {p[1] : p \in Elems(Case.xy)}
Y == {p[2] : p \in Elems(Case.xy)}
(* the sizes of the circles that have none of their own *)
Radii == {Case.items[i].r : i \in {j \in 1..Len(Case.items) : Case.items[j].k = "circle"
             /\ ~\E o \in Elems(Case.sizes) : o.k = "circle" /\ Case.xy[o.q] = Case.items[j].pts[1]}}
EndClause ==
    LET up == <<Min(Y) - Case.pad, Max(Y) + Case.pad>>
    IN CASE {g.f : g \in shown} # Wanted(Case, Kinds) -> "incomplete"
         [] ~(Below("patch", "line") /\ Below("line", "circle") /\ Below("circle", "text") /\ Below("patch", "circle")
              /\ Below("patch", "text") /\ Below("line", "text")) -> "hidden"
         [] Cardinality(Radii) > 1 \/ (\E r \in Radii : r <= 0) -> "sizes"
         [] <<Case.lim[1], Case.lim[2]>> # <<Min(X) - Case.pad, Max(X) + Case.pad>> -> "x range"
         [] <<Case.lim[3], Case.lim[4]>> # (IF Case.flip THEN <<up[2], up[1]>> ELSE up) -> "y range"
         [] ~Case.equal -> "aspect"
         [] OTHER -> ""
Flat == \A i \in 1..Len(Case.dims) : Case.dims[i] = 2
End == IF err # "" THEN err
       ELSE IF ~Flat THEN (IF Case.raised THEN "" ELSE "accepted")
       ELSE EndClause
Done == /\ pc <= Len(Case.items) + 1 /\ (err # "" \/ pc > Len(Case.items))
        /\ IF End = "" THEN PrintT(<<"OK", Case.id>>) ELSE PrintT(<<"BAD", Case.id, pc - 1, End>>)
        /\ pc' = Len(Case.items) + 2
        /\ UNCHANGED <<cid, shown, err>>
Spec == Init /\ [][Draw \/ Done]_vars
=============================================================================
