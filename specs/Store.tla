------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* Layouts, noise setups, their dictionaries and files as values.          *)
(* A thing is [kind, c]: kind "layout", "setup", "layoutdict" or           *)
(* "setupdict" (a dictionary or a file), c a function from keys (tuples of *)
(* strings) to values (tuples of strings).                                 *)
(*   layouts: <<"attr", q, name>>, <<"nbr", q, d>>, <<"ind", q>>,          *)
(*            <<"logx", l>>, <<"name">>, ...                               *)
(*   setups:  <<"glob", p>>, <<"per", p, q..>>, <<"var", x>>, <<"dur", g>> *)
(* Making a thing from another one takes its value at that moment; a       *)
(* change changes one thing.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == <<"none">>
Upd(c, k, v) == IF v = None THEN [x \in DOMAIN c \ {k} |-> c[x]]
                ELSE [x \in DOMAIN c \cup {k} |-> IF x = k THEN v ELSE c[x]]
RECURSIVE UpdAll(_, _)
UpdAll(c, s) == IF s = <<>> THEN c ELSE UpdAll(Upd(c, s[1][1], s[1][2]), Tail(s))
Only(c, P(_)) == LET D == {k \in DOMAIN c : P(k)} IN [k \in D |-> c[k]]

(* ---- what storage keeps, and what loading makes of it ---- *)
IsObj(kind) == kind \in {"layout", "setup"}
DictOf(kind) == IF kind = "layout" THEN "layoutdict" ELSE "setupdict"
ObjOf(kind) == IF kind = "layoutdict" THEN "layout" ELSE "setup"
Stored(kind, c) == IF kind = "setup" THEN Only(c, LAMBDA k : k[1] # "var") ELSE c
Unset == <<"unset">>
Named(c) == {c[k][2] : k \in {x \in DOMAIN c : x[1] \in {"glob", "per"} /\ c[x][1] = "var"}}
Loaded(kind, c) ==
    IF kind = "setupdict" THEN [k \in DOMAIN c \cup {<<"var", x>> : x \in Named(c)} |-> IF k \in DOMAIN c THEN c[k] ELSE Unset]
    ELSE c

(* ---- changes ---- *)
(* a value of a setup may name a free parameter, which is defined by that *)
Register(c, v) == IF v[1] = "var" /\ <<"var", v[2]>> \notin DOMAIN c THEN Upd(c, <<"var", v[2]>>, Unset) ELSE c
Changed(t, k, v) == [t EXCEPT !.c = Upd(IF t.kind = "setup" /\ k[1] \in {"glob", "per"} THEN Register(@, v) ELSE @, k, v)]

(* ---- answers ---- *)
SQ == {"h_error_prob", "s_error_prob", "sdag_error_prob", "x_error_prob", "z_error_prob",
       "reset_error_prob", "meas_error_prob", "idle_error_prob"}
TQ == {"cz_error_prob", "cnot_error_prob", "swap_error_prob"}
At(c, k) == IF k \in DOMAIN c THEN c[k] ELSE None
RECURSIVE Find(_, _, _)
Find(c, p, q) == IF q # <<>> /\ <<"per", p>> \o q \in DOMAIN c THEN c[<<"per", p>> \o q]
                 ELSE IF <<"glob", p>> \in DOMAIN c THEN c[<<"glob", p>>]
                 ELSE IF p \in SQ THEN Find(c, "sq_error_prob", q)
                 ELSE IF p \in TQ THEN Find(c, "tq_error_prob", q)
                 ELSE None
Fails == <<"fails">>
Eval(c, v) == IF v = None THEN Fails
              ELSE IF v[1] = "var" THEN (IF At(c, <<"var", v[2]>>) \in {None, Unset} THEN Fails ELSE c[<<"var", v[2]>>])
              ELSE v
Answer(t, k) ==
    IF t.kind = "setup" /\ k[1] = "param" THEN Eval(t.c, Find(t.c, k[2], SubSeq(k, 3, Len(k))))
    ELSE IF t.kind = "setup" /\ k[1] = "free" THEN <<IF At(t.c, <<"var", k[2]>>) = Unset THEN "yes" ELSE "no">>
    ELSE IF t.kind = "setup" /\ k[1] = "dur" THEN (IF At(t.c, k) = None THEN Fails ELSE t.c[k])
    ELSE At(t.c, k)
(* rec: the answers that were recorded; for layouts and dictionaries all there is *)
Matches(t, rec) == /\ \A k \in DOMAIN rec : Answer(t, k) = rec[k]
                   /\ t.kind # "setup" => DOMAIN rec = DOMAIN t.c
Wrong(t, rec) == {k \in DOMAIN rec : Answer(t, k) # rec[k]} \cup (IF t.kind = "setup" THEN {} ELSE DOMAIN t.c \ DOMAIN rec)
=============================================================================
