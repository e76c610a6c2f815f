------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* Requests to a builder, seen from outside.                               *)
(*                                                                         *)
(* A request is valid or has a flaw: it names something unknown, has an    *)
(* ill-typed or impossible argument, inconsistent sizes, or is not         *)
(* possible in the present state.  What a valid request returns depends on *)
(* the valid requests since the builder was renewed only; that history is  *)
(* the key of the request, and memo is what is known about the answers.    *)
(* What lies around the builder (env) is never changed by a request.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Flaws == {"unknown", "type", "value", "size", "state"}
MustReject(f) == f \in Flaws
KnownFlaw(f) == f = "" \/ f \in Flaws

Seen(memo, k) == \E m \in memo : m[1] = k
Answer(memo, k) == (CHOOSE m \in memo : m[1] = k)[2]
Learn(memo, k, out) == IF Seen(memo, k) THEN memo ELSE memo \cup {<<k, out>>}

Clause(memo, flaw, raised, k, out, env, env2) ==
    IF MustReject(flaw) /\ ~raised THEN "accepted"
    ELSE IF ~MustReject(flaw) /\ raised THEN "rejected"
    ELSE IF env # env2 THEN "surroundings changed"
    ELSE IF ~MustReject(flaw) /\ Seen(memo, k) /\ Answer(memo, k) # out THEN "another answer"
    ELSE ""
=============================================================================
