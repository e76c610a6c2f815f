---------------------------- MODULE Annotations ----------------------------
(***************************************************************************)
(* What the DETECTOR and OBSERVABLE_INCLUDE annotations of a recorded      *)
(* circuit must look like.  One step per case; every case gets a verdict.  *)
(*                                                                         *)
(* kind "obs":   obs  = sequence of [i, q, last], want = sequence of       *)
(*               logical supports in the order of the layouts.             *)
(* kind "shape": blocks = what was requested, in order; each block is      *)
(*               [t, round, dom, must]: t is the time coordinate, must the        *)
(*               ancillas (indices) whose detector has to read outcomes,   *)
(*               all those in dom \ must have to be empty detectors;       *)
(*               dom the ancillas that need a detector in that block.      *)
(*               dets = sequence of [c, n]: coordinates, number of outcomes*)
(*               coords = coordinates of each ancilla.                     *)
(* kind "diff":  full and part = two circuits, as sequences of tokens      *)
(*               [k, a, t, m] (k = 0: detector of ancilla a at time t over *)
(*               the outcomes m; k > 0: another instruction).  part is     *)
(*               the circuit restricted to the ancillas sel and, if        *)
(*               nogauge, without the first detectors of those in opp.     *)
(* kind "place": said = the declared [q, c] (qubit, coordinates) of a      *)
(*               circuit, want = those of the qubits of its layouts.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
ToSet(q) == {q[i] : i \in 1..Len(q)}

VARIABLES cid, done
vars == <<cid, done>>

(* -------- observables -------- *)
ObsClause(c) ==
    LET idx == [k \in 1..Len(c.obs) |-> c.obs[k].i]
    IN CASE ToSet(idx) # 0..(Len(c.want) - 1) \/ Len(c.obs) # Len(c.want) -> "indices"
         [] \E k \in 1..Len(c.obs) : ToSet(c.obs[k].q) # ToSet(c.want[c.obs[k].i + 1])
                                  \/ Len(c.obs[k].q) # Len(c.want[c.obs[k].i + 1]) -> "support"
         [] \E k \in 1..Len(c.obs) : ~c.obs[k].last -> "readout"
         [] OTHER -> ""

(* -------- number, order and coordinates of the detectors -------- *)
RECURSIVE Offset(_, _)
Offset(bl, k) == IF k = 1 THEN 0 ELSE Offset(bl, k - 1) + Len(bl[k - 1].dom)

Block(c, k) == [j \in 1..Len(c.blocks[k].dom) |-> c.dets[Offset(c.blocks, k) + j]]
Space(d) == SubSeq(d.c, 1, Len(d.c) - 1)
(* the ancilla a detector belongs to (0: none) *)
AncOf(c, d) == IF \E a \in 1..Len(c.coords) : c.coords[a] = Space(d)
               THEN CHOOSE a \in 1..Len(c.coords) : c.coords[a] = Space(d) ELSE 0
Order(c, k) == [j \in 1..Len(c.blocks[k].dom) |-> AncOf(c, Block(c, k)[j])]
ShapeClause(c) ==
    LET n == Len(c.blocks)
        named == Len(c.coords) > 0 /\ Len(c.coords[1]) > 0
        rounds == {k \in 1..n : c.blocks[k].round}
    IN CASE Len(c.dets) # Offset(c.blocks, n) + Len(c.blocks[n].dom) -> "count"
         [] \E k \in 1..n : \E j \in 1..Len(c.blocks[k].dom) :
               LET d == Block(c, k)[j] IN Len(d.c) = 0 \/ d.c[Len(d.c)] # c.blocks[k].t -> "time"
         [] named /\ (\E k \in 1..n : ToSet(Order(c, k)) # ToSet(c.blocks[k].dom)) -> "coordinates"
         [] named /\ (\E k, l \in rounds : Order(c, k) # Order(c, l)) -> "order"
         [] ~named /\ (\E k \in 1..n : \E j \in 1..Len(c.blocks[k].dom) : Len(Block(c, k)[j].c) # 1) -> "coordinates"
         [] named /\ (\E k \in 1..n : \E j \in 1..Len(c.blocks[k].dom) :
               (Order(c, k)[j] \in ToSet(c.blocks[k].must)) # (Block(c, k)[j].n > 0)) -> "selection"
         [] ~named /\ (\E k \in 1..n : Cardinality({j \in 1..Len(c.blocks[k].dom) : Block(c, k)[j].n > 0})
                                        # Len(c.blocks[k].must)) -> "selection"
         [] OTHER -> ""

(* -------- nothing else changes -------- *)
Emptied(c, d) == d.a \notin ToSet(c.sel) \/ (c.nogauge /\ d.t = 0 /\ d.a \in ToSet(c.opp))
DiffClause(c) ==
    LET D == {k \in 1..Len(c.full) : c.full[k].k = 0}
    IN CASE Len(c.full) # Len(c.part) -> "length"
         [] \E k \in 1..Len(c.full) : c.full[k].k # c.part[k].k -> "instructions"
         [] \E k \in D : c.full[k].a # c.part[k].a \/ c.full[k].t # c.part[k].t -> "coordinates"
         [] \E k \in D : ~Emptied(c, c.full[k]) /\ ToSet(c.full[k].m) # ToSet(c.part[k].m) -> "selected"
         [] \E k \in D : Emptied(c, c.full[k]) /\ c.part[k].m # <<>> -> "notempty"
         [] OTHER -> ""

(* -------- every qubit is where its layout has it -------- *)
PlaceClause(c) == IF ToSet(c.said) # ToSet(c.want) THEN "qubit coordinates" ELSE ""

Clause(c) == CASE c.kind = "obs" -> ObsClause(c)
               [] c.kind = "shape" -> ShapeClause(c)
               [] c.kind = "diff" -> DiffClause(c)
               [] c.kind = "place" -> PlaceClause(c)
               [] OTHER -> "kind"

Init == cid \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED cid
        /\ LET c == Cases[cid]
               v == Clause(c)
           IN IF v = "" THEN PrintT(<<"OK", c.id>>) ELSE PrintT(<<"BAD", c.id, v>>)
Spec == Init /\ [][Next]_vars
=============================================================================
