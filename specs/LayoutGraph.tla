---------------------------- MODULE LayoutGraph ----------------------------
(***************************************************************************)
(* A layout as a graph, and what the things derived from it have to be.    *)
(*   n         qubits 1..n in the order in which they were given           *)
(*   attr[q]   function: name of a parameter -> value (partial)            *)
(*   edges     set of <<q, direction, p>>                                  *)
(*   ind[q], xy[q]  index, coordinates                                     *)
(* SetParam is the only transition.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

ToSet(q) == {q[i] : i \in 1..Len(q)}
Has(g, q, a, v) == a \in DOMAIN g.attr[q] /\ g.attr[q][a] = v
Count(seq, x) == Cardinality({i \in 1..Len(seq) : seq[i] = x})
(* ---- transitions ---- *)
SetParam(g, a, q, v) == [g EXCEPT !.attr[q] = [b \in DOMAIN @ \cup {a} |-> IF b = a THEN v ELSE @[b]]]
SetCoord(g, q, v) == [g EXCEPT !.xy[q] = v]

(* ---- queries ---- *)
Select(g, conds) == SelectSeq([q \in 1..g.n |-> q], LAMBDA q : \A c \in ToSet(conds) : Has(g, q, c[1], c[2]))
Param(g, a, q) == IF a \in DOMAIN g.attr[q] THEN g.attr[q][a] ELSE ""
Ask(g, qs, d) == {e \in g.edges : e[1] \in ToSet(qs) /\ (d = "" \/ e[2] = d)}
NeighborPairs(g, qs, d, out) == (* out: sequence of <<qubit, neighbour>> *)
    LET want == Ask(g, qs, d)
    IN /\ Len(out) = Cardinality(want)
       /\ ToSet(out) = {<<e[1], e[3]>> : e \in want}
NeighborEnds(g, qs, d, out) ==
    LET want == Ask(g, qs, d)
    IN /\ Len(out) = Cardinality(want)
       /\ \A p \in {e[3] : e \in want} \cup ToSet(out) : Count(out, p) = Cardinality({e \in want : e[3] = p})
Role(g, r) == {q \in 1..g.n : Has(g, q, "role", r)}
Adjacent(g) == {<<e[1], e[3]>> : e \in g.edges}
Projected(g, t) == {e \in Adjacent(g) : e[1] \in Role(g, "data") /\ e[2] \in Role(g, "anc") /\ Has(g, e[2], "stab_type", t)}
Support(g, a) == {e[2] : e \in {x \in Adjacent(g) : x[1] = a}}

(* ---- the ancillas on a grid: rows from north to south, columns from west to east ---- *)
Vals(g, k) == {g.xy[a][k] : a \in Role(g, "anc")}
Row(g, a) == Cardinality({v \in Vals(g, 1) : v > g.xy[a][1]})
Col(g, a) == Cardinality({v \in Vals(g, 2) : v < g.xy[a][2]})
(* out: set of <<ancilla, row, column>>, shape: rows and columns *)
Expansion(g, out, shape) ==
    /\ out = {<<a, Row(g, a), Col(g, a)>> : a \in Role(g, "anc")}
    /\ shape = <<Cardinality(Vals(g, 1)), Cardinality(Vals(g, 2))>>
(* said otherwise: positions are ordered as the coordinates and no row or column is empty *)
Orderly(g, out) ==
    \A p, q \in out : /\ (g.xy[p[1]][1] > g.xy[q[1]][1]) = (p[2] < q[2])
                      /\ (g.xy[p[1]][2] < g.xy[q[1]][2]) = (p[3] < q[3])
Dense(out, shape) == {p[2] : p \in out} = 0..shape[1] - 1 /\ {p[3] : p \in out} = 0..shape[2] - 1

(* ---- coordinates from directions ---- *)
Opp == [north |-> "south", south |-> "north", east |-> "west", west |-> "east",
        north_east |-> "south_west", south_west |-> "north_east", north_west |-> "south_east", south_east |-> "north_west"]
Shift(xy, e) == <<xy[e[3]][1] - xy[e[1]][1], xy[e[3]][2] - xy[e[1]][2]>>
Abs(x) == IF x < 0 THEN -x ELSE x
Unit(d, v) == IF d \in {"north", "south", "east", "west"} THEN Abs(v[1]) + Abs(v[2]) = 1 ELSE Abs(v[1]) = 1 /\ Abs(v[2]) = 1
Reproduces(g, xy) ==
    \A e, f \in g.edges :
        /\ Unit(e[2], Shift(xy, e))
        /\ (e[2] = f[2]) = (Shift(xy, e) = Shift(xy, f))
        /\ (f[2] = Opp[e[2]]) = (Shift(xy, f) = <<-Shift(xy, e)[1], -Shift(xy, e)[2]>>)
RECURSIVE Grown(_, _)
Grown(g, s) == LET t == s \cup {e[3] : e \in {x \in g.edges : x[1] \in s}} IN IF t = s THEN s ELSE Grown(g, t)
Connected(g) == Grown(g, {1}) = 1..g.n

(* ---- chains ---- *)
RECURSIVE Dist(_, _, _, _)
Dist(g, front, q, k) == IF q \in front THEN k ELSE Dist(g, front \cup {e[3] : e \in {x \in g.edges : x[1] \in front}}, q, k + 1)
Degree(g, q) == Cardinality({e[3] : e \in {x \in g.edges : x[1] = q}})
Chain(g, q) == \A p \in Grown(g, {q}) : Degree(g, p) \in {1, 2}
IsRing(g, q) == \A p \in Grown(g, {q}) : Degree(g, p) = 2
(* idx[q]: index in the chain, -1 for the qubits that are not on it *)
Indexed(g, q0, idx) ==
    LET on == Grown(g, {q0})
        d == [q \in on |-> Dist(g, {q0}, q, 0)]
    IN /\ \A q \in 1..g.n \ on : idx[q] = -1
       /\ {idx[q] : q \in on} = 0..Cardinality(on) - 1
       /\ \A p, q \in on : d[p] < d[q] => idx[p] < idx[q]

(* ---- joint use: layouts as [lab, ind, xy, log] ---- *)
Share(a, b) == \/ ToSet(a.lab) \cap ToSet(b.lab) # {}
               \/ ToSet(a.ind) \cap ToSet(b.ind) # {}
               \/ ToSet(a.xy) \cap ToSet(b.xy) # {}
               \/ ToSet(a.log) \cap ToSet(b.log) # {}
Overlap(ls) == \E i, j \in 1..Len(ls) : i < j /\ Share(ls[i], ls[j])
=============================================================================
