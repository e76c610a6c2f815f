------------------------------ MODULE Drawing ------------------------------
(***************************************************************************)
(* A picture of a layout, drawn one item after another.                    *)
(*   L.xy     position of each qubit          L.cls  its class ("data", or *)
(*            the stabilizer type of an ancilla)                           *)
(*   L.name   label of each qubit             L.nbr  data qubits next to   *)
(*            each qubit (<<>> for data qubits)                            *)
(* An item is [k, pts, col, s]: its kind, its points, its colour, its text.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Elems(s) == {s[i] : i \in 1..Len(s)}
Qubits(L) == 1..Len(L.xy)
Ancs(L) == {q \in Qubits(L) : L.cls[q] # "data"}
At(L, p) == {q \in Qubits(L) : L.xy[q] = p}

(* the vertices of the patch of an ancilla *)
Corners(L, a) == {L.xy[d] : d \in Elems(L.nbr[a])} \cup (IF Len(L.nbr[a]) = 2 THEN {L.xy[a]} ELSE {})
(* a closed walk along the vertices that always turns to the same side, once around *)
Cross(o, a, b) == (a[1] - o[1]) * (b[2] - o[2]) - (a[2] - o[2]) * (b[1] - o[1])
Nxt(s, i) == s[(i % Len(s)) + 1]
Convex(s) == \A i, j \in 1..Len(s) : \A k, l \in 1..Len(s) :
    ~(Cross(s[i], Nxt(s, i), s[j]) > 0 /\ Cross(s[k], Nxt(s, k), s[l]) < 0)

(* what an item stands for: <<kind, qubit>> or <<"line", ancilla, data>> *)
Facts(L, it) ==
    CASE it.k \in {"circle", "text"} -> {<<it.k, q, 0>> : q \in At(L, it.pts[1])}
      [] it.k = "line" ->
           LET ends == IF Len(it.pts) = 2 THEN At(L, it.pts[1]) \cup At(L, it.pts[2]) ELSE {}
           IN UNION {{<<"line", a, d>> : d \in {e \in Elems(L.nbr[a]) : {L.xy[a], L.xy[e]} = Elems(it.pts)}} : a \in ends}
      [] it.k = "patch" -> {f \in {<<"patch", a, 0>> : a \in Ancs(L)} :
                             Elems(it.pts) = Corners(L, f[2]) /\ Len(it.pts) = Cardinality(Corners(L, f[2]))}
      [] OTHER -> {}

Wanted(L, kinds) ==
    {<<k, q, 0>> : k \in kinds \cap {"circle", "text"}, q \in Qubits(L)}
    \cup {<<"patch", a, 0>> : a \in IF "patch" \in kinds THEN Ancs(L) ELSE {}}
    \cup UNION {{<<"line", a, d>> : d \in Elems(L.nbr[a])} : a \in IF "line" \in kinds THEN Ancs(L) ELSE {}}

(* items of one kind have the same colour exactly when their qubits have the same class *)
ColourOK(L, shown, f, it) ==
    \A g \in shown : (g.f[1] = f[1] /\ f[1] # "text") => ((g.col = it.col) <=> (L.cls[g.f[2]] = L.cls[f[2]]))

(* shown: set of [f, col], what has been drawn so far *)
ItemClause(L, kinds, shown, it) ==
    LET F == Facts(L, it)
    IN CASE it.k \notin kinds -> "not requested"
         [] F = {} -> "misplaced"
         [] \A f \in F : \E g \in shown : g.f = f -> "drawn twice"
         [] it.k = "text" /\ (\A f \in F : L.name[f[2]] # it.s) -> "label"
         [] it.k = "patch" /\ ~Convex(it.pts) -> "outline"
         [] OTHER -> ""
=============================================================================
