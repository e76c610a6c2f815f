------------------------------ MODULE Program ------------------------------
(***************************************************************************)
(* Programs of public building blocks on NCodes surface codes.             *)
(*                                                                         *)
(* The state is what the programmer may know about the codes: which of     *)
(* them are active, which stabilizer types had a fixed value when last     *)
(* compared (base), which old stabilizer types every new stabilizer type   *)
(* is made of since then (need: the gates since the last QEC round), and   *)
(* which logical operators have a known value (gens).                      *)
(*                                                                         *)
(* Every step appends to hist the call to make and what is guaranteed      *)
(* about the annotations it emits:                                         *)
(*   Round: post / pre = the <<code, type>> whose detectors must be        *)
(*          deterministic in the post-gate / pre-gate frame; the others    *)
(*          involve a stabilizer that was never fixed.                     *)
(*   Meas:  det = the stabilizer type read out has to be deterministic,    *)
(*          obs = "val" / "det" / "free" and val = value of the observable.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NCodes, MaxLen, Gates, MinLen

Code == 1..NCodes
Type == {"X", "Z"}
Stab == Code \X Type
SymDiff(a, b) == (a \ b) \cup (b \ a)

VARIABLES on,      \* active codes
          base,    \* stabilizer types that were fixed when last compared
          need,    \* Stab -> set of old Stab that the new one is made of
          gens,    \* known logical operators: set of [x, z, v]
          mixed,   \* codes joined by a gate since the last round
          shady,   \* a Hadamard happened and some bitstring is random
          rnd,     \* codes initialised with a random bitstring
          hist, over
vars == <<on, base, need, gens, mixed, shady, rnd, hist, over>>

Ident == [s \in Stab |-> {s}]

Init == /\ on = {} /\ base = {} /\ need = Ident /\ gens = {} /\ mixed = {}
        /\ shady = FALSE /\ rnd = {} /\ hist = <<>> /\ over = FALSE

Emit(e) == hist' = Append(hist, e)
Touch(g, k) == k \in g.x \/ k \in g.z
Room == Len(hist) < MaxLen /\ ~over

Start(k, b, v, r) ==
    /\ Room /\ k \notin on
    /\ on' = on \cup {k}
    /\ base' = (base \ {<<k, "X">>, <<k, "Z">>}) \cup {<<k, b>>}
    /\ need' = [need EXCEPT ![<<k, "X">>] = {<<k, "X">>}, ![<<k, "Z">>] = {<<k, "Z">>}]
    /\ gens' = {g \in gens : ~Touch(g, k)} \cup
               {[x |-> IF b = "X" THEN {k} ELSE {}, z |-> IF b = "Z" THEN {k} ELSE {}, v |-> v]}
    /\ rnd' = IF r THEN rnd \cup {k} ELSE rnd \ {k}
    /\ Emit([op |-> "init", k |-> k, b |-> b, v |-> v, r |-> r])
    /\ UNCHANGED <<mixed, shady, over>>

Fixed(s) == \A o \in need[s] : o \in base

Round ==
    /\ Room /\ on # {}
    /\ base' = {s \in Stab : s[1] \in on}
    /\ need' = Ident
    /\ mixed' = {}
    /\ Emit([op |-> "round", on |-> on,
             post |-> {s \in Stab : s[1] \in on /\ Fixed(s)},
             pre |-> {s \in Stab : s[1] \in on /\ s \in base}])
    /\ UNCHANGED <<on, gens, shady, rnd, over>>

Pauli(g, k) ==
    /\ Room /\ k \in on
    /\ gens' = {[o EXCEPT !.v = IF (g = "x" /\ k \in o.z) \/ (g = "z" /\ k \in o.x) THEN 1 - @ ELSE @] : o \in gens}
    /\ Emit([op |-> g, k |-> k])
    /\ UNCHANGED <<on, base, need, mixed, shady, rnd, over>>

(* X -> X Z, Z -> Z.  The exact operator that an X-type one becomes depends on *)
(* stabilizers that may not be fixed, so nothing is promised about it.        *)
S(k) ==
    /\ Room /\ k \in on /\ "s" \in Gates
    /\ need' = [need EXCEPT ![<<k, "X">>] = @ \cup need[<<k, "Z">>]]
    /\ gens' = {o \in gens : k \notin o.x}
    /\ Emit([op |-> "s", k |-> k])
    /\ UNCHANGED <<on, base, mixed, shady, rnd, over>>

H(k) ==
    /\ Room /\ k \in on /\ "h" \in Gates
    /\ need' = [need EXCEPT ![<<k, "X">>] = need[<<k, "Z">>], ![<<k, "Z">>] = need[<<k, "X">>]]
    /\ gens' = {[o EXCEPT !.x = IF k \in o.z THEN {k} ELSE @ \ {k}, !.z = IF k \in o.x THEN {k} ELSE @ \ {k}] :
                   o \in {g \in gens : ~Touch(g, k) \/ g.x \cup g.z = {k}}}
    /\ shady' = TRUE
    /\ Emit([op |-> "h", k |-> k])
    /\ UNCHANGED <<on, base, mixed, rnd, over>>

Cnot(c, t) ==
    /\ Room /\ c \in on /\ t \in on /\ c # t /\ "cnot" \in Gates
    /\ need' = [need EXCEPT ![<<c, "X">>] = @ \cup need[<<t, "X">>], ![<<t, "Z">>] = @ \cup need[<<c, "Z">>]]
    /\ gens' = {[o EXCEPT !.x = IF c \in @ THEN SymDiff(@, {t}) ELSE @,
                          !.z = IF t \in @ THEN SymDiff(@, {c}) ELSE @] : o \in gens}
    /\ mixed' = mixed \cup {c, t}
    /\ Emit([op |-> "cnot", k |-> c, t |-> t])
    /\ UNCHANGED <<on, base, shady, rnd, over>>

RECURSIVE Mul(_)
Mul(T) == IF T = {} THEN [x |-> {}, z |-> {}, v |-> 0]
          ELSE LET g == CHOOSE h \in T : TRUE
                   r == Mul(T \ {g})
               IN [x |-> SymDiff(g.x, r.x), z |-> SymDiff(g.z, r.z), v |-> (g.v + r.v) % 2]
Known(k, b) == {T \in SUBSET gens : LET m == Mul(T) IN
                  m.x = (IF b = "X" THEN {k} ELSE {}) /\ m.z = (IF b = "Z" THEN {k} ELSE {})}
Obs(k, b) == IF Known(k, b) = {} THEN "free" ELSE IF shady /\ rnd # {} THEN "det" ELSE "val"
Val(k, b) == IF Known(k, b) = {} THEN 0 ELSE Mul(CHOOSE T \in Known(k, b) : TRUE).v

(* one code is read out and switched off; no gate with another code is pending *)
Meas(k, b) ==
    /\ Room /\ k \in on /\ k \notin mixed
    /\ on' = on \ {k}
    /\ gens' = {g \in gens : ~Touch(g, k)}
    /\ base' = base \ {<<k, "X">>, <<k, "Z">>}
    /\ need' = [need EXCEPT ![<<k, "X">>] = {<<k, "X">>}, ![<<k, "Z">>] = {<<k, "Z">>}]
    /\ Emit([op |-> "meas", k |-> k, b |-> b, det |-> Fixed(<<k, b>>), obs |-> Obs(k, b), val |-> Val(k, b)])
    /\ UNCHANGED <<mixed, shady, rnd, over>>

(* all active codes are read out together, which ends the program *)
MeasAll(b) ==
    /\ ~over /\ on # {} /\ Len(hist) >= MinLen
    /\ over' = TRUE
    /\ Emit([op |-> "measall", on |-> on, b |-> b,
             det |-> {k \in on : Fixed(<<k, b[k]>>)},
             obs |-> [k \in Code |-> IF k \in on THEN Obs(k, b[k]) ELSE "free"],
             val |-> [k \in Code |-> IF k \in on THEN Val(k, b[k]) ELSE 0]])
    /\ UNCHANGED <<on, base, need, gens, mixed, shady, rnd>>

Next == \/ \E k \in Code, b \in Type, v \in {0, 1}, r \in BOOLEAN : Start(k, b, v, r)
        \/ Round
        \/ \E k \in Code : Pauli("x", k) \/ Pauli("z", k) \/ S(k) \/ H(k)
        \/ \E c, t \in Code : Cnot(c, t)
        \/ \E k \in Code, b \in Type : Meas(k, b)
        \/ \E b \in [Code -> Type] : MeasAll(b)

Spec == Init /\ [][Next]_vars

(* simulation: the same behaviours, rounds are drawn more often *)
CONSTANT RoundWeight
SimSpec == Init /\ [][Next \/ \E i \in 1..RoundWeight : Round]_vars
Dump == over => PrintT(<<"PROG", ToJson(hist)>>)
(* the state without the history *)
View == <<on, base, need, gens, mixed, shady, rnd, over, Len(hist), IF hist = <<>> THEN "" ELSE hist[Len(hist)].op>>

(* ---- what the design itself guarantees (checked by TLC on this machine) ---- *)
TypeOK == /\ on \subseteq Code /\ base \subseteq Stab /\ mixed \subseteq on
          /\ \A s \in Stab : need[s] # {} /\ need[s] \subseteq Stab
(* inactive codes have no known operator, no fixed stabilizer and no pending gate *)
OffIsForgotten == \A k \in Code \ on : /\ \A g \in gens : ~Touch(g, k)
                                       /\ \A b \in Type : <<k, b>> \notin base
                                       /\ \A s \in Stab : s[1] # k => (<<k, "X">> \notin need[s] /\ <<k, "Z">> \notin need[s])
(* the known operators commute: there is a state that has all these values *)
Commute == \A g, h \in gens : (Cardinality(g.x \cap h.z) + Cardinality(g.z \cap h.x)) % 2 = 0
(* values are consistent: no operator is known with two values *)
Consistent == \A T \in SUBSET gens : LET m == Mul(T) IN m.x = {} /\ m.z = {} => m.v = 0
(* right after a round every stabilizer of an active code is fixed *)
RoundFixes == (hist # <<>> /\ hist[Len(hist)].op = "round") => \A s \in Stab : s[1] \in on => Fixed(s)
=============================================================================
