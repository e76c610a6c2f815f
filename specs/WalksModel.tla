----------------------------- MODULE WalksModel -----------------------------
(***************************************************************************)
(* For every set of up to MaxE faults on MaxN detectors: a closed odd walk *)
(* of at most k edges exists iff at most k faults flip the observable and  *)
(* no detector; leaving out the places already tried loses nothing.        *)
(***************************************************************************)
EXTENDS Faults, TLC
CONSTANTS MaxN, MaxE
VARIABLES sigs
N == 1..MaxN
All == {s \cup o : s \in {x \in SUBSET N : Cardinality(x) \in {1, 2}}, o \in {{}, {0}}}
Init == sigs = {}
Next == Cardinality(sigs) < MaxE /\ \E s \in All : sigs' = sigs \cup {s}
Spec == Init /\ [][Next]_sigs
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN {} ELSE LET s == CHOOSE x \in S : TRUE IN Diff(s, Sum(S \ {s}))
Brute(k) == \E S \in SUBSET sigs : Cardinality(S) <= k /\ Sum(S) = {0}
E == Edges(sigs, N)
Nodes == {0} \cup N
A == Adj(E, Nodes)
ByWalk(k) == \E v \in Nodes : OddWalk(A, {m \in Nodes : m >= v}, v, k)
Same == \A k \in 1..MaxE : Brute(k) <=> ByWalk(k)
=============================================================================
