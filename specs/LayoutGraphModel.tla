-------------------------- MODULE LayoutGraphModel --------------------------
(***************************************************************************)
(* Machines that assign coordinates and chain indices by walking over a    *)
(* graph, in any order the graph allows, for every connected graph on a    *)
(* small grid: what they end with meets the clauses of LayoutGraph.tla, so *)
(* the clauses do not depend on the order of the walk.  The placement of   *)
(* ancillas on a grid is unique: only one is orderly and dense.            *)
(***************************************************************************)
EXTENDS LayoutGraph
CONSTANTS NX, NY, MaxChain, NumAnc

Vec == [north |-> <<0, 1>>, south |-> <<0, -1>>, east |-> <<1, 0>>, west |-> <<-1, 0>>,
        north_east |-> <<1, 1>>, south_west |-> <<-1, -1>>, north_west |-> <<1, -1>>, south_east |-> <<-1, 1>>]
Plus(v, d) == <<v[1] + Vec[d][1], v[2] + Vec[d][2]>>
Kinds == {{"north", "east"}, {"north_east", "north_west"}}
SiteOf(q) == <<(q - 1) % NX, (q - 1) \div NX>>
Pairs(k) == {<<q, d, p>> \in (1..NX * NY) \X k \X (1..NX * NY) : SiteOf(p) = Plus(SiteOf(q), d)}
Both(s) == s \cup {<<e[3], Opp[e[2]], e[1]>> : e \in s}
Graph(n, es) == [n |-> n, edges |-> es, attr |-> [q \in 1..n |-> [role |-> "anc"]], xy |-> [q \in 1..n |-> <<0, 0>>]]

VARIABLES task, g, xy, idx, queue, done
vars == <<task, g, xy, idx, queue, done>>

InitWalk == /\ task = "walk"
            /\ \E k \in Kinds : \E s \in SUBSET Pairs(k) : g = Graph(NX * NY, Both(s))
            /\ \E q \in 1..g.n : LET on == Grown(g, {q})
                                 IN xy = [p \in {q} |-> <<0, 0>>] /\ Cardinality(on) > 1
            /\ idx = <<>> /\ queue = <<>> /\ done = FALSE
InitChain == /\ task = "chain"
             /\ \E n \in 2..MaxChain, m \in 0..2 :
                    g = Graph(n + m, Both({<<q, "east", q + 1>> : q \in (1..n + m - 1) \ {n}}))
             /\ \E q \in 1..g.n : Degree(g, q) > 0 /\ queue = <<q>> /\ xy = <<q>>
             /\ idx = [q \in 1..g.n |-> -1] /\ done = FALSE
InitPlace == /\ task = "place"
             /\ \E c \in [1..NumAnc -> (0..2) \X (0..2)] :
                    /\ \A p, q \in 1..NumAnc : p # q => c[p] # c[q]
                    /\ g = [Graph(NumAnc, {}) EXCEPT !.xy = c]
             /\ xy = <<>> /\ idx = <<>> /\ queue = <<>> /\ done = TRUE
Init == InitWalk \/ InitChain \/ InitPlace

(* assign a coordinate to a neighbour of a qubit that has one *)
Assign == /\ task = "walk" /\ ~done
          /\ \E e \in g.edges :
                /\ e[1] \in DOMAIN xy /\ e[3] \notin DOMAIN xy
                /\ xy' = [p \in DOMAIN xy \cup {e[3]} |-> IF p = e[3] THEN Plus(xy[e[1]], e[2]) ELSE xy[p]]
          /\ UNCHANGED <<task, g, idx, queue, done>>
(* take the next qubit of the chain, note its neighbours in any order *)
Take == /\ task = "chain" /\ queue # <<>>
        /\ LET q == Head(queue)
               k == Cardinality({p \in 1..g.n : idx[p] >= 0})
               new == {e[3] : e \in {x \in g.edges : x[1] = q}} \ {p \in 1..g.n : idx[p] >= 0 \/ p = q}
           IN /\ idx' = [idx EXCEPT ![q] = k]
              /\ IF new = {} THEN queue' = Tail(queue)
                 ELSE \E f \in {h \in [1..Cardinality(new) -> new] : \A a, b \in DOMAIN h : a # b => h[a] # h[b]} :
                        queue' = Tail(queue) \o f
        /\ UNCHANGED <<task, g, xy, done>>
Finish == /\ ~done
          /\ task = "walk" => \A e \in g.edges : e[1] \in DOMAIN xy => e[3] \in DOMAIN xy
          /\ task = "chain" => queue = <<>>
          /\ done' = TRUE /\ UNCHANGED <<task, g, xy, idx, queue>>
Next == Assign \/ Take \/ Finish
Spec == Init /\ [][Next]_vars

Part == [g EXCEPT !.edges = {e \in g.edges : e[1] \in DOMAIN xy}]
WalkSound == task = "walk" /\ done => Reproduces(Part, xy)
ChainSound == task = "chain" /\ done => Indexed(g, xy[1], idx)
Placements == [1..NumAnc -> (0..NumAnc - 1) \X (0..NumAnc - 1)]
PlaceUnique == task = "place" =>
    LET shape == <<Cardinality(Vals(g, 1)), Cardinality(Vals(g, 2))>>
        ok == {f \in Placements : LET out == {<<a, f[a][1], f[a][2]>> : a \in 1..NumAnc}
                                  IN Orderly(g, out) /\ Dense(out, shape)}
    IN /\ Cardinality(ok) = 1
       /\ \A f \in ok : Expansion(g, {<<a, f[a][1], f[a][2]>> : a \in 1..NumAnc}, shape)
=============================================================================
