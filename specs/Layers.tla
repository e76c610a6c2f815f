------------------------------- MODULE Layers -------------------------------
(***************************************************************************)
(* Time steps.  A step is what happens between two consecutive separators. *)
(* ops:   sequence of qubit tuples, one per operation and target; idling   *)
(*        is an operation.  noise: sequence of qubit tuples, one per       *)
(*        channel.  part: the participating qubits, data: the data qubits. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Elems(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Flat(_)
Flat(t) == IF t = <<>> THEN <<>> ELSE Head(t) \o Flat(Tail(t))

(* how often qubit q takes part in an operation of the step *)
Uses(ops, q) == Cardinality({z \in {<<i, j>> : i \in 1..Len(ops), j \in 1..2} :
                               z[2] <= Len(ops[z[1]]) /\ ops[z[1]][z[2]] = q})
Used(ops) == Elems(Flat(ops))

OnceEach(ops, part) == ops = <<>> \/ \A q \in part : Uses(ops, q) = 1
OnlyPart(ops, part) == Used(ops) \subseteq part

(* noise of a step with operations acts where something happens, a channel *)
(* on two qubits on a pair that interacts                                  *)
Interact(ops, a, b) == \E i \in 1..Len(ops) : Len(ops[i]) = 2 /\ Elems(ops[i]) = {a, b}
NoiseLocal(ops, noise) == \A i \in 1..Len(noise) :
    CASE Len(noise[i]) = 1 -> noise[i][1] \in Used(ops)
      [] Len(noise[i]) = 2 -> Interact(ops, noise[i][1], noise[i][2])
      [] OTHER -> FALSE
(* a step without operations contains at most the incoming noise of data qubits *)
NoiseIncoming(noise, data) == \A i \in 1..Len(noise) : Len(noise[i]) = 1 /\ noise[i][1] \in data
(* models with noise on every operation: exactly one channel per operation *)
NoiseOnce(ops, noise) == \A i \in 1..Len(ops) :
    Cardinality({j \in 1..Len(noise) : Elems(noise[j]) = Elems(ops[i])}) = 1

(* a sequence of events [e, g, q] without separators; in models in which    *)
(* only what comes in and the read-outs are noisy, a data qubit has blocks  *)
(* times per channels that do not belong to a read-out of it; in a single   *)
(* block these come before all operations on it.                            *)
IsRead(g) == g \in {"MZ", "MX", "MY"}
Touch(s, d) == SelectSeq(s, LAMBDA x : d \in Elems(x.q))
RECURSIVE Before(_)  (* the events before the first operation *)
Before(s) == IF s = <<>> \/ Head(s).e = "op" THEN <<>> ELSE <<Head(s)>> \o Before(Tail(s))
Channels(s) == Len(SelectSeq(s, LAMBDA x : x.e = "ch"))
IncomingOnce(s, steps, data, per, blocks, single) ==
    \A d \in data :
        LET quiet == {k \in 1..Len(steps) : ~\E x \in Elems(steps[k]) : x.e = "op" /\ IsRead(x.g) /\ d \in Elems(x.q)}
            RECURSIVE Sum(_)
            Sum(k) == IF k = 0 THEN 0 ELSE Sum(k - 1) + (IF k \in quiet THEN Channels(Touch(steps[k], d)) ELSE 0)
        IN /\ Sum(Len(steps)) = per * blocks
           /\ single /\ blocks = 1 => Channels(Before(Touch(s, d))) >= per

StepClause(ops, noise, part, data, full) ==
    IF ~OnlyPart(ops, part) THEN "foreign qubit"
    ELSE IF \E q \in part : Uses(ops, q) > 1 THEN "used twice"
    ELSE IF ~OnceEach(ops, part) THEN "missing"
    ELSE IF ops = <<>> /\ ~NoiseIncoming(noise, data) THEN "noise without operation"
    ELSE IF ops # <<>> /\ ~NoiseLocal(ops, noise) THEN "noise elsewhere"
    ELSE IF ops # <<>> /\ full /\ ~NoiseOnce(ops, noise) THEN "noise not once"
    ELSE ""
=============================================================================
