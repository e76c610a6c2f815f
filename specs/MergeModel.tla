----------------------------- MODULE MergeModel -----------------------------
(***************************************************************************)
(* Merging a step of two circuits, starting from one after the other, by   *)
(* exchanging neighbouring events on disjoint qubits.  TLC checks that     *)
(* what can be reached this way is exactly what Merge.tla accepts: a       *)
(* permutation of the events that was not reached is refused.              *)
(***************************************************************************)
EXTENDS Merge, TLC
CONSTANTS Len1, Len2, Deep

Ev1 == {[g |-> "h", q |-> <<1>>, m |-> 0], [g |-> "n", q |-> <<2>>, m |-> 0], [g |-> "c", q |-> <<1, 2>>, m |-> 0]}
Ev2 == {[g |-> "h", q |-> <<3>>, m |-> 0]} \cup IF Deep THEN {[g |-> "n", q |-> <<3>>, m |-> 0], [g |-> "h", q |-> <<4>>, m |-> 0]} ELSE {}
Seqs(E, n) == [1..n -> E]
VARIABLES a, b, s
vars == <<a, b, s>>
Init == /\ a \in Seqs(Ev1, Len1) /\ b \in Seqs(Ev2, Len2) /\ s = a \o b
Swap(i) == /\ Range(s[i].q) \cap Range(s[i + 1].q) = {}
           /\ s' = [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
           /\ UNCHANGED <<a, b>>
Next == \E i \in 1..(Len(s) - 1) : Swap(i)
Spec == Init /\ [][Next]_vars

Q1 == {1, 2}
Q2 == {3, 4}
Accepted(t) == ~Stray(t, <<Q1, Q2>>) /\ Same(Part(t, Q1), a) /\ Same(Part(t, Q2), b)
Sound == Accepted(s)
(* the merged step also exchanges two dependent different events: refused *)
Dependent(i) == Range(s[i].q) \cap Range(s[i + 1].q) # {} /\ s[i] # s[i + 1]
Complete == \A i \in 1..(Len(s) - 1) : Dependent(i) => ~Accepted([s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]])
(* losing, repeating or changing an event is refused *)
Exact == \A i \in 1..Len(s) :
    /\ ~Accepted(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)))
    /\ ~Accepted(SubSeq(s, 1, i) \o SubSeq(s, i, Len(s)))
    /\ ~Accepted([s EXCEPT ![i].g = "z"])
(* every permutation that is accepted can be reached: from any accepted    *)
(* sequence there is a way back to a \o b that only exchanges independent  *)
(* events, because the first event of a \o b can always be brought forward *)
First(x, t) == CHOOSE i \in 1..Len(t) : t[i] = x /\ \A j \in 1..(i - 1) : t[j] # x
RECURSIVE Back(_, _)
Back(t, goal) == IF goal = <<>> THEN t = <<>>
    ELSE LET x == Head(goal) IN
         /\ \E i \in 1..Len(t) : t[i] = x
         /\ LET i == First(x, t) IN
            /\ \A j \in 1..(i - 1) : Range(t[j].q) \cap Range(x.q) = {}
            /\ Back(SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t)), Tail(goal))
Perms == {f \in [1..Len(s) -> 1..Len(s)] : \A i, j \in 1..Len(s) : f[i] = f[j] => i = j}
AllReached == s = a \o b => \A f \in Perms : LET t == [i \in 1..Len(s) |-> s[f[i]]] IN Accepted(t) <=> Back(t, s)
=============================================================================
