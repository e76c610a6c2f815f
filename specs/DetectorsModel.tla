--------------------------- MODULE DetectorsModel ---------------------------
(***************************************************************************)
(* Model checking of the specification of the detectors against a physical *)
(* oracle: every stabilizer carries a symbolic value (a set of symbols,    *)
(* XORed).  Activation gives it a fresh unknown, gates multiply values,    *)
(* errors flip them with a fresh symbol, rounds record them (as the        *)
(* difference of consecutive outcomes when the ancilla is not reset).      *)
(* The detectors, evaluated on the recorded symbols, must be exactly what  *)
(* happened to the stabilizers they compare since the last round.          *)
(* Simulation of the same machine generates histories for the real code.   *)
(***************************************************************************)
EXTENDS Detectors, TLC, Json

CONSTANTS N, MaxLen, MinLen, Frame, Reset, Keep, Weight

A == 1..N
VARIABLES s, val, out, delta, sym, hist, len, err, ok, over
vars == <<s, val, out, delta, sym, hist, len, err, ok, over>>

Init == /\ s = Fresh(N) /\ val = [a \in A |-> {}] /\ out = [a \in A |-> <<>>]
        /\ delta = [a \in A |-> {}] /\ sym = 0 /\ hist = <<>> /\ len = 0 /\ err = FALSE /\ ok = TRUE /\ over = FALSE
Room == len < MaxLen /\ ~over
(* the history is only kept to generate behaviours *)
Emit(e) == /\ hist' = IF Keep THEN Append(hist, e) ELSE hist
           /\ len' = len + 1
           /\ err' = (e.op = "err")

(* fresh symbols sym+1 .. for the elements of S *)
Num(S, a) == sym + Cardinality({b \in S : b <= a})

Activate(S) ==
    /\ Room /\ S # {} /\ CanActivate(s, S)
    /\ s' = DoActivate(s, S)
    /\ val' = [a \in A |-> IF a \in S THEN {Num(S, a)} ELSE val[a]]
    /\ delta' = [a \in A |-> IF a \in S THEN {Num(S, a)} ELSE delta[a]]
    /\ sym' = sym + Cardinality(S)
    /\ Emit([op |-> "act", s |-> S])
    /\ UNCHANGED <<out, ok, over>>
Deactivate(S) ==
    /\ Room /\ S # {} /\ CanDeactivate(s, S) /\ CleanCut(s, S)
    /\ s' = DoDeactivate(s, S)
    /\ delta' = [a \in A |-> IF a \in S THEN {} ELSE delta[a]]
    /\ Emit([op |-> "deact", s |-> S])
    /\ UNCHANGED <<val, out, sym, ok, over>>
Gate(U) ==
    /\ Room /\ CanGate(s, U) /\ Invertible(U)
    /\ s' = DoGate(s, U)
    /\ val' = Comp(U, val)
    /\ delta' = Comp(U, delta)
    /\ Emit([op |-> "gate", u |-> [a \in A |-> U[a]]])
    /\ UNCHANGED <<out, sym, ok, over>>
(* at most one error between two other steps, to keep the state space small *)
Error(a) ==
    /\ a \in s.act /\ ~over /\ ~err /\ len < MaxLen
    /\ val' = [val EXCEPT ![a] = @ \cup {sym + 1}]
    /\ delta' = [delta EXCEPT ![a] = @ \cup {sym + 1}]
    /\ sym' = sym + 1
    /\ Emit([op |-> "err"])
    /\ UNCHANGED <<s, out, ok, over>>

(* symbols of a set of outcomes; data outcomes <<1000 + a, 1>> stand for val[a] *)
RECURSIVE Eval(_, _)
Eval(o, T) == IF T = {} THEN {}
              ELSE LET t == CHOOSE x \in T : TRUE
                   IN SymD(IF t[1] > 1000 THEN val[t[1] - 1000] ELSE o[t[1]][t[2]], Eval(o, T \ {t}))

Round ==
    /\ Room /\ s.act # {} /\ CanRound(s)
    /\ LET out2 == [a \in A |-> IF a \notin s.act THEN out[a]
                                ELSE Append(out[a], IF Reset \/ s.since[a] = 0 THEN val[a]
                                                    ELSE SymD(val[a], out[a][Len(out[a])]))]
           want(a) == IF Frame = "pre-gate" THEN XorOver(delta, Inverse(s.gen)[a]) ELSE delta[a]
       IN /\ out' = out2
          /\ ok' = (ok /\ (Frame = "gate-independent" \/
                     \A a \in s.act : Eval(out2, RoundDet(s, a, Frame, Reset)) = want(a)))
    /\ s' = DoRound(s)
    /\ delta' = [a \in A |-> {}]
    /\ Emit([op |-> "round"])
    /\ UNCHANGED <<val, sym, over>>

Data(R) ==
    /\ Room /\ R # {} /\ CanData(s, R)
    /\ ok' = (ok /\ (Frame = "gate-independent" \/
                \A a \in R : Eval(out, DataDet(s, a, Frame, Reset, {<<1000 + a, 1>>})) = delta[a]))
    /\ s' = DoData(s, R)
    /\ Emit([op |-> "data", s |-> R])
    /\ UNCHANGED <<val, out, delta, sym, over>>

(* elementary gates: products, exchanges and the non-involutive a, b -> b, a*b *)
Id == [a \in A |-> {a}]
Elem == {[Id EXCEPT ![a] = {a, b}] : a, b \in A} \cup {[Id EXCEPT ![a] = {b}, ![b] = {a}] : a, b \in A}
        \cup {[Id EXCEPT ![a] = {b}, ![b] = {a, b}] : a, b \in A}
        \cup {[Id EXCEPT ![a] = {b}, ![b] = {c}, ![c] = {a}] : a, b, c \in A}
Gates == {U \in Elem : U # Id /\ Invertible(U)}

Next == \/ \E S \in SUBSET A : Activate(S) \/ Deactivate(S) \/ Data(S)
        \/ \E U \in Gates : Gate(U)
        \/ \E a \in A : Error(a)
        \/ Round
Spec == Init /\ [][Next]_vars

(* simulation: random gates on random sets of active ancillas *)
RandomGate == LET B == s.act \ s.spent
                  S == IF B = {} THEN {} ELSE RandomElement(SUBSET B)
              IN [a \in A |-> IF a \in S THEN RandomElement(SUBSET S) ELSE {a}]
Stop == /\ ~over /\ len >= MinLen /\ over' = TRUE /\ UNCHANGED <<s, val, out, delta, sym, hist, len, err, ok>>
SimNext == \/ LET S == RandomElement(SUBSET A) IN Activate(S)
           \/ LET S == IF s.spent # {} THEN s.spent ELSE RandomElement(SUBSET A) IN Deactivate(S)
           \/ LET S == RandomElement(SUBSET A) IN Data(S)
           \/ \E i \in 1..Weight : \/ Round
                                   \/ LET U == IF RandomElement({0, 1}) = 0 THEN RandomElement(Gates) ELSE RandomGate IN U # Id /\ Gate(U)
           \/ Stop
SimSpec == Init /\ [][SimNext]_vars
Dump == over => PrintT(<<"HIST", ToJson(hist)>>)

Physical == ok
TypeOK == /\ s.act \subseteq A /\ s.spent \subseteq s.act /\ Invertible(s.gen)
          /\ \A a \in A : s.since[a] <= s.cnt[a] /\ s.cnt[a] = Len(out[a])
          /\ \A a \in A \ s.act : s.gen[a] = {a} /\ \A b \in A : b # a => a \notin s.gen[b]
InverseOK == Comp(Inverse(s.gen), s.gen) = Id
=============================================================================
