------------------------------- MODULE Merge -------------------------------
(***************************************************************************)
(* Parallel composition of circuits on disjoint qubits.                    *)
(*                                                                         *)
(* A circuit is a sequence of steps, a step a sequence of events           *)
(*    [g: what is done (name and arguments), q: qubits, m: 0 or the number *)
(*     of the outcome it records].                                         *)
(* Two steps are the same if every qubit sees the same events in the same  *)
(* order: events on disjoint qubits commute.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in 1..Len(s)}
What(x) == [g |-> x.g, q |-> x.q]
On(s, q) == SelectSeq(s, LAMBDA x : q \in Range(x.q))
Look(s, q) == LET t == On(s, q) IN [i \in 1..Len(t) |-> What(t[i])]
QubitsOf(s) == UNION {Range(s[i].q) : i \in 1..Len(s)}
Same(a, b) == /\ Len(a) = Len(b)
              /\ \A q \in QubitsOf(a) \cup QubitsOf(b) : Look(a, q) = Look(b, q)

(* the events of a merged step that belong to the qubits Q of one circuit; *)
(* an event that reaches beyond Q belongs to nobody                        *)
Part(s, Q) == SelectSeq(s, LAMBDA x : Range(x.q) \subseteq Q)
Stray(s, QS) == \E i \in 1..Len(s) : \A k \in DOMAIN QS : ~(Range(s[i].q) \subseteq QS[k])

(* the outcomes of step a, of the merged circuit, named after those of b:  *)
(* j-th outcome of a qubit in the step <-> j-th outcome of that qubit      *)
Outcomes(s, q) == SelectSeq(On(s, q), LAMBDA x : x.m > 0)
Names(a, b, c) == UNION {{<<Outcomes(a, q)[j].m, <<c, Outcomes(b, q)[j].m>>>> : j \in 1..Len(Outcomes(a, q))}
                         : q \in QubitsOf(a)}

(* the next step of every circuit that explains a merged step: a circuit   *)
(* either takes its next step, or waits (w: the events of waiting) while   *)
(* it is allowed to.  0: no explanation                                    *)
Move(part, own, p, w, maywait) ==
    IF p <= Len(own) /\ Same(part, own[p]) THEN "step"
    ELSE IF maywait /\ Same(part, w) THEN "wait"
    ELSE "wrong"

(* outcomes are recorded circuit after circuit, each in its own order      *)
InOrder(names) == \A a, b \in names : a[1] < b[1] =>
    (a[2][1] < b[2][1] \/ (a[2][1] = b[2][1] /\ a[2][2] < b[2][2]))

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Range(s) : Count(s, x) = Count(t, x)
=============================================================================
