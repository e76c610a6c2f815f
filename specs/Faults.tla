------------------------------- MODULE Faults -------------------------------
(***************************************************************************)
(* Which detectors and observables a fault flips.  A watch w is a function *)
(* w.x[q], w.z[q]: the sets of detectors that an X (Z) error on q, here    *)
(* and now, flips; 0, -1, ... stand for the observables.  They are pulled back *)
(* through the instructions of specs/Pauli.tla: an error before an         *)
(* instruction is the error that it becomes after it.  A fault is any      *)
(* Pauli error after an operation on the qubits of the operation, or the   *)
(* wrong outcome of a measurement.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Diff(a, b) == (a \ b) \cup (b \ a)
Blind(n) == [x |-> [q \in 1..n |-> {}], z |-> [q \in 1..n |-> {}]]
(* reads[k]: the detectors that outcome k belongs to *)
One(op, b, w, q, r) ==
    CASE op = "H" -> [x |-> [w.x EXCEPT ![q] = w.z[q]], z |-> [w.z EXCEPT ![q] = w.x[q]]]
      [] op \in {"S", "S_DAG"} -> [w EXCEPT !.x[q] = Diff(@, w.z[q])]
      [] op = "M" /\ b = "Z" -> [w EXCEPT !.x[q] = Diff(@, r)]
      [] op = "M" /\ b = "X" -> [w EXCEPT !.z[q] = Diff(@, r)]
      [] op = "M" /\ b = "Y" -> [w EXCEPT !.x[q] = Diff(@, r), !.z[q] = Diff(@, r)]
      [] op = "R" -> [w EXCEPT !.x[q] = {}, !.z[q] = {}]
      [] OTHER -> w
Two(op, w, a, b) ==
    CASE op = "CX" -> [w EXCEPT !.x[a] = Diff(@, w.x[b]), !.z[b] = Diff(@, w.z[a])]
      [] op = "CZ" -> [w EXCEPT !.x[a] = Diff(@, w.z[b]), !.x[b] = Diff(@, w.z[a])]
      [] op = "SWAP" -> [x |-> [w.x EXCEPT ![a] = w.x[b], ![b] = w.x[a]], z |-> [w.z EXCEPT ![a] = w.z[b], ![b] = w.z[a]]]
Known(i) == i.op \in {"H", "X", "Y", "Z", "S", "S_DAG", "CX", "CZ", "SWAP", "M", "R"}
Double(i) == i.op \in {"CX", "CZ", "SWAP"}
(* the watch before the first k targets of instruction i *)
RECURSIVE Before(_, _, _, _)
Before(i, w, reads, k) ==
    IF k = 0 THEN w
    ELSE Before(i, IF Double(i) THEN Two(i.op, w, i.t[k][1], i.t[k][2])
                   ELSE One(i.op, i.b, w, i.t[k], IF i.op = "M" THEN reads[i.k + k] ELSE {}), reads, k - 1)
Back(i, w, reads) == Before(i, w, reads, Len(i.t))

(* what the faults of an instruction flip; w: the watch after it *)
OnOne(w, q) == {{}, w.x[q], w.z[q], Diff(w.x[q], w.z[q])}
OnTwo(w, a, b) == {Diff(p, r) : p \in OnOne(w, a), r \in OnOne(w, b)}
Flips(i, w, reads) ==
    (IF Double(i) THEN UNION {OnTwo(w, i.t[k][1], i.t[k][2]) : k \in DOMAIN i.t}
     ELSE UNION {OnOne(w, i.t[k]) : k \in DOMAIN i.t})
    \cup (IF i.op = "M" THEN {reads[i.k + k] : k \in DOMAIN i.t} ELSE {})
(* an error that an operation randomizes: the detector is not deterministic *)
Random(i, w, q) == \/ i.op = "R" /\ (IF i.b = "X" THEN w.x[q] ELSE IF i.b = "Y" THEN Diff(w.x[q], w.z[q]) ELSE w.z[q]) # {}
                   \/ i.op = "M" /\ (IF i.b = "X" THEN w.x[q] ELSE IF i.b = "Y" THEN Diff(w.x[q], w.z[q]) ELSE w.z[q]) # {}

(* ---- sets of faults that flip observables and no detector ---- *)
Clean(sigs) == sigs \ {{}}
Seen(s) == {d \in s : d > 0}
Alone(sigs) == \E s \in Clean(sigs) : Seen(s) = {}
(* two faults with the same detectors and different observables *)
InPairs(sigs) == Cardinality({Seen(s) : s \in sigs}) < Cardinality(sigs)

(* the faults as edges <<detectors, flips the observable>> between detectors of *)
(* one kind, or between a detector and the boundary (node 0)                    *)
Edges(sigs, kind) ==
    LET E == {<<(s \cap kind) \cup (IF Cardinality(s \cap kind) = 1 THEN {0} ELSE {}), 0 \in s>> :
                s \in {x \in sigs : Cardinality(x \cap kind) \in {1, 2}}}
    IN E
Loops(sigs, kind) == \E s \in sigs : s \cap kind = {} /\ 0 \in s
Hyper(sigs, kind) == {s \in sigs : Cardinality(s \cap kind) > 2}
(* Walks over the edges: a closed walk that flips the observable an odd number *)
(* of times is a set of faults that no detector of the kind notices.           *)
Adj(edges, nodes) == [n \in nodes |-> {<<CHOOSE m \in e[1] \ {n} : TRUE, e[2]>> : e \in {x \in edges : n \in x[1]}}]
More(adj, F, live) == {p \in UNION {{<<s[1], s[2] # p[2]>> : s \in adj[p[1]]} : p \in F} : p[1] \in live}
RECURSIVE Reach(_, _, _, _, _)
Reach(adj, live, seen, new, k) == IF k = 0 \/ new = {} THEN seen
                                  ELSE LET m == More(adj, new, live) \ seen IN Reach(adj, live, seen \cup m, m, k - 1)
(* a closed odd walk through v of at most k edges, within live *)
OddWalk(adj, live, v, k) == <<v, TRUE>> \in Reach(adj, live, {<<v, FALSE>>}, {<<v, FALSE>>}, k)
=============================================================================
