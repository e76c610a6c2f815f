---------------------------- MODULE SetupParams ----------------------------
(***************************************************************************)
(* The tables of a noise setup and the look-up of its parameters.          *)
(*   T.glob : parameter -> value          (global values)                  *)
(*   T.per  : set of [q, p, v]            (values of a qubit or a pair)    *)
(*   T.var  : free parameter -> value     (None while unset)               *)
(* A value is [k, n, s]: k = "num" (n), "str" (s) or "var" (s names a free *)
(* parameter), k = "none" for an unset free parameter.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoVal == [k |-> "none", n |-> 0, s |-> ""]

SQ == {"h_error_prob", "s_error_prob", "sdag_error_prob", "x_error_prob", "z_error_prob",
       "reset_error_prob", "meas_error_prob", "idle_error_prob"}
TQ == {"cz_error_prob", "cnot_error_prob", "swap_error_prob"}
HasParent(p) == p \in SQ \cup TQ
Parent(p) == IF p \in SQ THEN "sq_error_prob" ELSE "tq_error_prob"

EmptyTables == [glob |-> <<>>, per |-> {}, var |-> <<>>]

Upd(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Register(T, v) == IF v.k = "var" /\ v.s \notin DOMAIN T.var THEN [T EXCEPT !.var = Upd(@, v.s, NoVal)] ELSE T

(* give parameter p the value v for the qubits q (<<>>: globally) *)
SetParam(T, p, v, q) ==
    LET R == Register(T, v)
    IN IF q = <<>> THEN [R EXCEPT !.glob = Upd(@, p, v)]
       ELSE [R EXCEPT !.per = {e \in @ : ~(e.q = q /\ e.p = p)} \cup {[q |-> q, p |-> p, v |-> v]}]
SetVar(T, x, v) == [T EXCEPT !.var = Upd(@, x, v)]

(* the value found, before looking at free parameters *)
RECURSIVE Find(_, _, _)
Find(T, p, q) ==
    IF \E e \in T.per : e.q = q /\ e.p = p THEN (CHOOSE e \in T.per : e.q = q /\ e.p = p).v
    ELSE IF p \in DOMAIN T.glob THEN T.glob[p]
    ELSE IF HasParent(p) THEN Find(T, Parent(p), q)
    ELSE NoVal
Eval(T, v) == IF v.k = "var" THEN (IF v.s \in DOMAIN T.var THEN T.var[v.s] ELSE NoVal) ELSE v
Look(T, p, q) == Eval(T, Find(T, p, q))     \* NoVal: the look-up fails

RECURSIVE LookVar(_, _)
LookVar(T, x) == LET v == IF x \in DOMAIN T.var THEN T.var[x] ELSE NoVal
                 IN IF v = NoVal /\ HasParent(x) THEN LookVar(T, Parent(x)) ELSE v
Unset(T) == {x \in DOMAIN T.var : T.var[x] = NoVal}
=============================================================================
