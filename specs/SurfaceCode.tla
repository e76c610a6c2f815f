---------------------------- MODULE SurfaceCode ----------------------------
(***************************************************************************)
(* What a layout of a surface code has to be.  A layout is a record        *)
(*   n        number of qubits, which are 1..n                             *)
(*   typ[q]   "D" (data), "X" or "Z" (ancilla of an X- or Z-stabilizer)    *)
(*   lab[q], ind[q], xy[q]  label, index, coordinates (scaled integers)    *)
(*   nb[q]    function: direction -> neighbour (partial)                   *)
(*   order    [X |-> directions, Z |-> directions]                         *)
(*   logx, logz   sets of data qubits                                      *)
(* and a request is [fam, dx, dz, point, did, zid, xid, ind] (point scaled *)
(* likewise).  Everything is about the graph; how it is constructed is     *)
(* free.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(f) == {f[x] : x \in DOMAIN f}
Qubits(L) == 1..L.n
Data(L) == {q \in Qubits(L) : L.typ[q] = "D"}
Stabs(L, t) == {q \in Qubits(L) : L.typ[q] = t}
Ancs(L) == Stabs(L, "X") \cup Stabs(L, "Z")
Supp(L, a) == Range(L.nb[a])
Odd(s) == Cardinality(s) % 2 = 1
Unique(f) == \A a, b \in DOMAIN f : a # b => f[a] # f[b]

(* ---- sizes ---- *)
NumData(r) == IF r.fam = "rot" THEN r.dx * r.dz ELSE r.dx * r.dz + (r.dx - 1) * (r.dz - 1)
Sized(L, r) == /\ Cardinality(Data(L)) = NumData(r)
               /\ Cardinality(Ancs(L)) = NumData(r) - 1
               /\ L.n = 2 * NumData(r) - 1
               /\ r.fam = "unrot" => Cardinality(Stabs(L, "X")) = r.dx * (r.dz - 1)
               /\ r.fam = "rot" => Cardinality(Stabs(L, "X")) - Cardinality(Stabs(L, "Z")) \in -r.dx-r.dz..r.dx+r.dz
Weights(L, r) == \A a \in Ancs(L) :
    Cardinality(Supp(L, a)) \in IF r.dx = 1 \/ r.dz = 1 THEN {2} ELSE IF r.fam = "rot" THEN {2, 4} ELSE {3, 4}
Bulk(L, r) == (* number of stabilizers of full weight *)
    r.dx > 1 /\ r.dz > 1 =>
    Cardinality({a \in Ancs(L) : Cardinality(Supp(L, a)) = 4}) =
        IF r.fam = "rot" THEN (r.dx - 1) * (r.dz - 1) ELSE r.dx * (r.dz - 1) + r.dz * (r.dx - 1) - 2 * (r.dx + r.dz - 2)

(* ---- labels, indices, coordinates ---- *)
Labelled(L, r) ==
    LET want(s, c, id) == {L.lab[q] : q \in s} = {c \o ToString(k) : k \in id..id + Cardinality(s) - 1}
    IN /\ want(Data(L), "D", r.did) /\ want(Stabs(L, "Z"), "Z", r.zid) /\ want(Stabs(L, "X"), "X", r.xid)
       /\ Unique(L.lab)
Indexed(L, r) == Unique(L.ind) /\ r.ind \in Range(L.ind) /\ \A q \in Qubits(L) : L.ind[q] >= r.ind
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Corner(L, s) == CHOOSE q \in s : \A p \in s : p = q \/ Before(L.xy[q], L.xy[p])
Placed(L, r) ==
    LET first(s, c, id) == s # {} => L.lab[Corner(L, s)] = c \o ToString(id)
        o == Corner(L, Data(L))
    IN /\ Unique(L.xy)
       /\ L.xy[o] = r.point
       /\ \A q \in Data(L) : L.xy[q][1] >= r.point[1] /\ L.xy[q][2] >= r.point[2]
       /\ first(Data(L), "D", r.did) /\ first(Stabs(L, "Z"), "Z", r.zid) /\ first(Stabs(L, "X"), "X", r.xid)

(* ---- neighbours ---- *)
Opp == [north |-> "south", south |-> "north", east |-> "west", west |-> "east",
        north_east |-> "south_west", south_west |-> "north_east", north_west |-> "south_east", south_east |-> "north_west"]
Card == {"north", "south", "east", "west"}
Diag == {"north_east", "north_west", "south_east", "south_west"}
Dirs(L) == UNION {DOMAIN L.nb[q] : q \in Qubits(L)}
Symmetric(L, r) == /\ Dirs(L) \subseteq (IF r.fam = "rot" THEN Diag ELSE Card)
                   /\ \A q \in Qubits(L) : \A d \in DOMAIN L.nb[q] :
                        LET p == L.nb[q][d]
                        IN /\ p # q /\ (L.typ[p] = "D") # (L.typ[q] = "D")
                           /\ Opp[d] \in DOMAIN L.nb[p] /\ L.nb[p][Opp[d]] = q
                   /\ \A q \in Qubits(L) : Unique(L.nb[q])
Shift(L, q, p) == <<L.xy[p][1] - L.xy[q][1], L.xy[p][2] - L.xy[q][2]>>
Shifts(L, d) == {Shift(L, q, L.nb[q][d]) : q \in {p \in Qubits(L) : d \in DOMAIN L.nb[p]}}
Neg(v) == <<-v[1], -v[2]>>
Directed(L) ==
    /\ \A d \in Dirs(L) : Cardinality(Shifts(L, d)) = 1
    /\ \A d, e \in Dirs(L) : d # e => Shifts(L, d) # Shifts(L, e)
    /\ \A d \in Dirs(L) : Shifts(L, Opp[d]) = {Neg(v) : v \in Shifts(L, d)}
    /\ \A d \in Dirs(L) : \A v \in Shifts(L, d) :
        IF d \in Diag THEN v[1] # 0 /\ v[2] # 0 ELSE (v[1] = 0) # (v[2] = 0)
(* every data qubit that is there is a neighbour *)
Complete(L) ==
    \A a \in Ancs(L) : \A d \in Dirs(L) : \A v \in Shifts(L, d) :
        (\E q \in Data(L) : Shift(L, a, q) = v) => d \in DOMAIN L.nb[a]

(* ---- the code ---- *)
Commuting(L) == \A a \in Stabs(L, "X") : \A b \in Stabs(L, "Z") : ~Odd(Supp(L, a) \cap Supp(L, b))
Sym(a, b) == (a \ b) \cup (b \ a)
RECURSIVE Rank(_)
Rank(rows) == (* rank over GF(2) of a set of sets *)
    LET rs == rows \ {{}}
    IN IF rs = {} THEN 0
       ELSE LET r == CHOOSE x \in rs : TRUE
                p == CHOOSE x \in r : TRUE
            IN 1 + Rank({IF p \in s THEN Sym(s, r) ELSE s : s \in rs \ {r}})
OneLogical(L) == LET rk(t) == Rank({Supp(L, a) : a \in Stabs(L, t)})
                 IN Cardinality(Data(L)) - rk("X") - rk("Z") = 1
Logicals(L, r) ==
    /\ L.logx \subseteq Data(L) /\ L.logz \subseteq Data(L)
    /\ Cardinality(L.logz) = r.dz /\ Cardinality(L.logx) = r.dx
    /\ \A a \in Stabs(L, "X") : ~Odd(Supp(L, a) \cap L.logz)
    /\ \A a \in Stabs(L, "Z") : ~Odd(Supp(L, a) \cap L.logx)
    /\ Odd(L.logx \cap L.logz)

(* Smallest weight of an operator of type t that commutes with all the     *)
(* stabilizers and is not a stabilizer: a shortest walk in the graph whose *)
(* nodes are the checks (and the boundary, 0) and whose edges are the data *)
(* qubits, that comes back having crossed the other logical an odd number  *)
(* of times.                                                               *)
Other(t) == IF t = "X" THEN "Z" ELSE "X"
RECURSIVE Walk(_, _, _, _, _)
Walk(edges, goal, seen, front, k) ==
    IF goal \in front THEN k
    ELSE IF front = {} THEN 10000
    ELSE LET new == {<<e[2], (x[2] + e[3]) % 2>> : <<x, e>> \in {<<x, e>> \in front \X edges : e[1] = x[1]}} \ seen
         IN Walk(edges, goal, seen \cup new, new, k + 1)
Min(s) == CHOOSE x \in s : \A y \in s : x <= y
CodeDistance(L, t) ==
    LET chk == Stabs(L, Other(t))
        cut == IF t = "X" THEN L.logz ELSE L.logx
        of == [q \in Data(L) |-> {a \in chk : q \in Supp(L, a)}]
        ends == [q \in Data(L) |-> IF Cardinality(of[q]) >= 2 THEN of[q] ELSE of[q] \cup {0}]
        flip == [q \in Data(L) |-> IF q \in cut THEN 1 ELSE 0]
        edges == UNION {{<<a, b, flip[q]>> : <<a, b>> \in {e \in ends[q] \X ends[q] : e[1] # e[2] \/ Cardinality(ends[q]) = 1}} : q \in Data(L)}
    IN Min({Walk(edges, <<v, 1>>, {<<v, 0>>}, {<<v, 0>>}, 0) : v \in chk \cup {0}})
Distances(L, r) == CodeDistance(L, "X") = r.dx /\ CodeDistance(L, "Z") = r.dz
(* every data qubit is in one or two checks of a type, so that the walks are all the operators *)
Graphlike(L) == \A q \in Data(L) : \A t \in {"X", "Z"} : Cardinality({a \in Stabs(L, t) : q \in Supp(L, a)}) <= 2

(* ---- the order of the interactions ---- *)
Scheduled(L) ==
    /\ \A t \in {"X", "Z"} :
        \A a \in Stabs(L, t) : \A d \in DOMAIN L.nb[a] : Cardinality({k \in 1..Len(L.order[t]) : L.order[t][k] = d}) = 1
    /\ Len(L.order.X) = Len(L.order.Z)
    /\ \A k \in 1..Len(L.order.X) :
        \A a, b \in Ancs(L) : a # b =>
            LET d == L.order[L.typ[a]][k]
                e == L.order[L.typ[b]][k]
            IN d \in DOMAIN L.nb[a] /\ e \in DOMAIN L.nb[b] => L.nb[a][d] # L.nb[b][e]

Clauses(L, r) == <<
    <<"sizes", Sized(L, r)>>, <<"labels", Labelled(L, r)>>, <<"indices", Indexed(L, r)>>, <<"neighbours", Symmetric(L, r)>>,
    <<"coordinates", Placed(L, r)>>, <<"directions", Directed(L)>>, <<"missing neighbours", Complete(L)>>,
    <<"weights", Weights(L, r) /\ Bulk(L, r)>>, <<"commutation", Commuting(L)>>, <<"graph", Graphlike(L)>>,
    <<"one logical qubit", OneLogical(L)>>, <<"logical operators", Logicals(L, r)>>, <<"distances", Distances(L, r)>>,
    <<"interaction order", Scheduled(L)>> >>
Broken(L, r) == LET c == Clauses(L, r)
                    bad == {k \in 1..Len(c) : ~c[k][2]}
                IN IF bad = {} THEN "" ELSE c[Min(bad)][1]
=============================================================================
