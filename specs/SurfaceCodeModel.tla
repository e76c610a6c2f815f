-------------------------- MODULE SurfaceCodeModel --------------------------
(***************************************************************************)
(* The clauses of SurfaceCode.tla are met by the surface codes (built here *)
(* from their geometry, independently of the library) and notice every     *)
(* fault of a list: the clauses are neither contradictory nor vacuous.     *)
(* A behaviour builds a code plaquette by plaquette and then breaks it.    *)
(***************************************************************************)
EXTENDS SurfaceCode
CONSTANTS MaxD

Vec == [north |-> <<0, 1>>, south |-> <<0, -1>>, east |-> <<1, 0>>, west |-> <<-1, 0>>,
        north_east |-> <<1, 1>>, south_west |-> <<-1, -1>>, north_west |-> <<1, -1>>, south_east |-> <<-1, 1>>]
Req == [fam : {"rot", "unrot"}, dx : 1..MaxD, dz : 1..MaxD]
(* sites of the data qubits and of the stabilizers, with x = row *)
RotData(r) == {<<2 * i + 1, 2 * j + 1>> : i \in 0..r.dx - 1, j \in 0..r.dz - 1}
RotStab(r, t) ==
    {s \in {<<2 * i, 2 * j>> : i \in 0..r.dx, j \in 0..r.dz} :
        /\ ((s[1] + s[2]) % 4 = 2) = (t = "X")
        /\ IF t = "X" THEN s[2] \in 1..2 * r.dz - 1 ELSE s[1] \in 1..2 * r.dx - 1}
UnData(r) == {s \in (0..2 * r.dx - 2) \X (0..2 * r.dz - 2) : (s[1] + s[2]) % 2 = 0}
UnStab(r, t) == {s \in (0..2 * r.dx - 2) \X (0..2 * r.dz - 2) : (s[1] + s[2]) % 2 = 1 /\ (s[1] % 2 = 0) = (t = "X")}
DataSites(r) == IF r.fam = "rot" THEN RotData(r) ELSE UnData(r)
StabSites(r, t) == IF r.fam = "rot" THEN RotStab(r, t) ELSE UnStab(r, t)
RECURSIVE Sorted(_)
Sorted(s) == IF s = {} THEN <<>>
             ELSE LET m == CHOOSE x \in s : \A y \in s : x = y \/ Before(x, y) IN <<m>> \o Sorted(s \ {m})

VARIABLES req, lay, todo, fault
vars == <<req, lay, todo, fault>>
Full(r) == [fam |-> r.fam, dx |-> r.dx, dz |-> r.dz, did |-> 1, zid |-> 3, xid |-> 2, ind |-> 5,
            point |-> IF r.fam = "rot" THEN <<1, 1>> ELSE <<0, 0>>]
Ord(fam) == IF fam = "rot" THEN [X |-> <<"north_east", "north_west", "south_east", "south_west">>,
                                 Z |-> <<"north_east", "south_east", "north_west", "south_west">>]
            ELSE [X |-> <<"north", "west", "east", "south">>, Z |-> <<"north", "east", "west", "south">>]
Bare(r) ==
    LET d == Sorted(DataSites(r))
        n == Len(d)
    IN [n |-> n, typ |-> [q \in 1..n |-> "D"], lab |-> [q \in 1..n |-> "D" \o ToString(q)],
        ind |-> [q \in 1..n |-> 4 + q], xy |-> d, nb |-> [q \in 1..n |-> <<>>], order |-> Ord(r.fam),
        logz |-> {q \in 1..n : d[q][1] = d[1][1]}, logx |-> {q \in 1..n : d[q][2] = d[1][2]}]
Empty == [d \in {} |-> 0]
(* add a stabilizer of type t at the site s *)
Add(L, r, t, s) ==
    LET a == L.n + 1
        dirs == {d \in (IF r.fam = "rot" THEN Diag ELSE Card) :
                    \E q \in Data(L) : L.xy[q] = <<s[1] + Vec[d][1], s[2] + Vec[d][2]>>}
        at(d) == CHOOSE q \in Data(L) : L.xy[q] = <<s[1] + Vec[d][1], s[2] + Vec[d][2]>>
        num == Cardinality(Stabs(L, t)) + (IF t = "X" THEN 2 ELSE 3)
    IN [L EXCEPT !.n = a, !.typ = Append(@, t), !.lab = Append(@, t \o ToString(num)), !.ind = Append(@, 4 + a),
                 !.xy = Append(@, s),
                 !.nb = Append([q \in 1..L.n |->
                    IF \E d \in dirs : at(d) = q
                    THEN LET d == CHOOSE e \in dirs : at(e) = q
                         IN [e \in DOMAIN @[q] \cup {Opp[d]} |-> IF e = Opp[d] THEN a ELSE @[q][e]]
                    ELSE @[q]], [d \in dirs |-> at(d)])]

Init == /\ \E r \in Req : req = Full(r)
        /\ lay = Bare(req)
        /\ todo = [k \in 1..2 |-> Sorted(StabSites(req, IF k = 1 THEN "X" ELSE "Z"))]
        /\ fault = "building"
Grow == /\ fault = "building"
        /\ \E k \in {1, 2} :
            /\ k = 2 => todo[1] = <<>>
            /\ todo[k] # <<>>
            /\ lay' = Add(lay, req, IF k = 1 THEN "X" ELSE "Z", Head(todo[k]))
            /\ todo' = [todo EXCEPT ![k] = Tail(@)]
        /\ UNCHANGED <<req, fault>>
Finish == fault = "building" /\ todo = <<<<>>, <<>>>> /\ fault' = "" /\ UNCHANGED <<req, lay, todo>>
Drop(f, d) == [e \in DOMAIN f \ {d} |-> f[e]]
A == CHOOSE a \in Ancs(lay) : \A b \in Ancs(lay) : b <= a
ADir == CHOOSE d \in DOMAIN lay.nb[A] : TRUE
Break ==
    /\ fault = "" /\ req.dx > 1 /\ req.dz > 1
    /\ LET L == lay
           q == L.nb[A][ADir]
       IN \/ fault' = "edge" /\ lay' = [L EXCEPT !.nb[A] = Drop(@, ADir), !.nb[q] = Drop(@, Opp[ADir])]
          \/ fault' = "half edge" /\ lay' = [L EXCEPT !.nb[q] = Drop(@, Opp[ADir])]
          \/ fault' = "index" /\ lay' = [L EXCEPT !.ind[2] = @ - 1]
          \/ fault' = "first index" /\ lay' = [L EXCEPT !.ind = [p \in 1..L.n |-> @[p] + 1]]
          \/ fault' = "label" /\ lay' = [L EXCEPT !.lab[1] = L.lab[2], !.lab[2] = L.lab[1]]
          \/ fault' = "coordinates" /\ lay' = [L EXCEPT !.xy[q] = <<@[1] + 1, @[2]>>]
          \/ fault' = "point" /\ lay' = [L EXCEPT !.xy = [p \in 1..L.n |-> <<@[p][1] + 2, @[p][2]>>]]
          \/ fault' = "type" /\ lay' = [L EXCEPT !.typ[A] = Other(@), !.lab[A] = "X" \o ToString(Cardinality(Stabs(L, "X")) + 2)]
          \/ fault' = "order" /\ lay' = [L EXCEPT !.order.X = <<@[1], @[2], @[4], @[3]>>]
          \/ fault' = "order twice" /\ lay' = [L EXCEPT !.order.Z = <<@[1], @[1], @[3], @[4]>>]
          \/ fault' = "logical x" /\ lay' = [L EXCEPT !.logx = (@ \ {CHOOSE p \in @ : p # 1}) \cup {CHOOSE p \in Data(L) : p \notin @}]
          \/ fault' = "swapped logicals" /\ req.dx # req.dz /\ lay' = [L EXCEPT !.logx = L.logz, !.logz = L.logx]
          \/ fault' = "swapped axes" /\ req.dx # req.dz /\ lay' = L
          \/ fault' = "no ancilla" /\ lay' = [L EXCEPT !.n = @ - 1, !.typ = SubSeq(@, 1, L.n - 1), !.lab = SubSeq(@, 1, L.n - 1),
                    !.ind = SubSeq(@, 1, L.n - 1), !.xy = SubSeq(@, 1, L.n - 1),
                    !.nb = [p \in 1..L.n - 1 |-> [d \in {e \in DOMAIN @[p] : @[p][e] # L.n} |-> @[p][d]]]]
    /\ req' = IF fault' = "swapped axes" THEN [req EXCEPT !.dx = req.dz, !.dz = req.dx] ELSE req
    /\ UNCHANGED todo
Next == Grow \/ Finish \/ Break
Spec == Init /\ [][Next]_vars
Met == fault = "" => Broken(lay, req) = ""
Noticed == fault \notin {"building", ""} => Broken(lay, req) # ""
(* at every moment of the construction what is there is sound *)
Growing == fault \in {"building", ""} => Commuting(lay) /\ Graphlike(lay) /\ Symmetric(lay, req)
=============================================================================
