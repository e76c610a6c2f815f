------------------------------ MODULE Dataset ------------------------------
(***************************************************************************)
(* What a sampled memory experiment contains.  An experiment measures      *)
(* qubits in an order (order[k] is the qubit of the k-th outcome); every   *)
(* outcome is an affine function of the random bits of the shot:           *)
(* par[k] plus the bits in var[k].  A shot of a dataset is given by        *)
(* anc[r][a] and data[d] (by label).                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* number of outcomes of the qubit of outcome k up to k *)
Turn(order, k) == Cardinality({i \in 1..k : order[i] = order[k]})
(* the cell of the dataset that has to hold outcome k *)
Cell(order, A, k) == IF order[k] \in A THEN <<"anc", Turn(order, k), order[k]>> ELSE <<"data", 0, order[k]>>
WellFormed(order, A, D, R) ==
    /\ A \cap D = {} /\ \A k \in DOMAIN order : order[k] \in A \cup D
    /\ Len(order) = R * Cardinality(A) + Cardinality(D)
    /\ \A a \in A : Cardinality({k \in DOMAIN order : order[k] = a}) = R
    /\ \A d \in D : Cardinality({k \in DOMAIN order : order[k] = d}) = 1
Value(shot, c) == IF c[1] = "anc" THEN shot.anc[c[2]][c[3]] ELSE shot.data[c[3]]
Flip(b, n) == (b + n) % 2
(* the bit of the shot that a lone variable shows, first at outcome k *)
Bit(shot, order, A, par, k) == Flip(Value(shot, Cell(order, A, k)), par[k])
RECURSIVE Total(_, _)
Total(s, f) == IF s = <<>> THEN 0 ELSE f[Head(s)] + Total(Tail(s), f)
(* def[j] : an outcome that shows bit j alone *)
Consistent(shot, order, A, par, var, def) ==
    LET bit == [j \in DOMAIN def |-> Bit(shot, order, A, par, def[j])]
    IN \A k \in DOMAIN order : Value(shot, Cell(order, A, k)) = Flip(par[k], Total(var[k], bit))
(* sums of outcomes that are the same in every shot *)
RECURSIVE Sum(_, _, _, _)
Sum(shot, order, A, s) == IF s = <<>> THEN 0 ELSE Value(shot, Cell(order, A, Head(s))) + Sum(shot, order, A, Tail(s))
Holds(shot, order, A, rel) == Sum(shot, order, A, rel.at) % 2 = rel.parity
=============================================================================
