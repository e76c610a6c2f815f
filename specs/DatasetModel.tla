---------------------------- MODULE DatasetModel ----------------------------
(***************************************************************************)
(* A sampler that writes the outcomes of every shot one by one, and a      *)
(* dataset cut from the written bits by arithmetic.  TLC checks that for   *)
(* every outcome the arithmetic agrees with the labels of Dataset.tla      *)
(* when the experiment measures round by round in the order of the labels, *)
(* and that the clauses notice the faults.                                 *)
(***************************************************************************)
EXTENDS Dataset, TLC
CONSTANTS Fault, Shots, MaxA, MaxD, MaxR
VARIABLES A, D, R, tape, shot, k
vars == <<A, D, R, tape, shot, k>>
Ancs == 1..A
Datas == A + 1..A + D
Per == R * A + D
Order == [i \in 1..Per |-> IF i <= R * A THEN ((i - 1) % A) + 1 ELSE A + i - R * A]
Init == A \in 1..MaxA /\ D \in 1..MaxD /\ R \in 0..MaxR /\ tape = <<>> /\ shot = 1 /\ k = 1
(* bit 1 is shown by the first outcome, bit 2 by the last; the others are sums *)
Vars(i) == IF i = 1 THEN <<1>> ELSE IF i = Per THEN <<2>> ELSE IF i % 3 = 0 THEN <<1, 2>> ELSE IF i % 3 = 1 THEN <<2>> ELSE <<>>
Par == [i \in 1..Per |-> IF i % 2 = 0 THEN 1 ELSE 0]
Put == /\ shot <= Shots /\ k = 1
       /\ \E b \in [1..2 -> {0, 1}] :
            tape' = tape \o [i \in 1..Per |-> Flip(Par[i], Total(Vars(i), b))]
       /\ shot' = shot + 1 /\ UNCHANGED <<A, D, R, k>>
Stop == shot = Shots + 1 /\ k = 1 /\ k' = 2 /\ UNCHANGED <<A, D, R, tape, shot>>
Spec == Init /\ [][Put \/ Stop]_vars
Bitt(s, i) == IF Fault = "shots" THEN tape[(i - 1) * Shots + s] ELSE tape[(s - 1) * Per + i]
Cut(s) == [anc |-> [r \in 1..R |-> [a \in Ancs |->
                CASE Fault = "axes" -> Bitt(s, (a - 1) * R + r)
                  [] Fault = "last" -> Bitt(s, (R - r) * A + a)
                  [] Fault = "first" -> Bitt(s, D + (r - 1) * A + a)
                  [] OTHER -> Bitt(s, (r - 1) * A + a)]],
           data |-> [d \in Datas |-> Bitt(s, (IF Fault = "first" THEN 0 ELSE R * A) + d - A)]]
Right == k = 2 /\ Per > 1 => /\ WellFormed(Order, Ancs, Datas, R)
                  /\ \A s \in 1..Shots : Consistent(Cut(s), Order, Ancs, Par, [i \in 1..Per |-> Vars(i)], <<1, Per>>)
=============================================================================
