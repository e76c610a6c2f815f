---------------------------- MODULE RequestsModel ----------------------------
(***************************************************************************)
(* Two builders that share their surroundings, driven by any sequence of   *)
(* renewals, valid and flawed requests.  A builder has a hidden state that *)
(* valid requests advance.  TLC checks that the clauses of Requests.tla    *)
(* hold for builders that keep the rules, and that they notice every       *)
(* builder that breaks one (Fault): a rejected request that leaves a trace,*)
(* a renewal that forgets to reset, a hidden state that is shared, a       *)
(* request that changes the surroundings, a flaw that is accepted.         *)
(***************************************************************************)
EXTENDS Requests, TLC
CONSTANTS Fault, MaxLen

Builder == {1, 2}
Ask == {"a", "b"}
VARIABLES hidden, key, env, memo, clause, len
vars == <<hidden, key, env, memo, clause, len>>
Init == /\ hidden = [b \in Builder |-> <<>>] /\ key = [b \in Builder |-> <<>>]
        /\ env = 0 /\ memo = {} /\ clause = "" /\ len = 0

Owner(b) == IF Fault = "shared" THEN 1 ELSE b
More == clause = "" /\ len < MaxLen /\ len' = len + 1

Renew(b) == /\ More
            /\ hidden' = IF Fault = "stale" /\ Len(hidden[b]) > 1 THEN hidden ELSE [hidden EXCEPT ![Owner(b)] = <<>>]
            /\ key' = [key EXCEPT ![b] = <<>>]
            /\ UNCHANGED <<env, memo, clause>>
Valid(b, x) ==
    /\ More
    /\ LET k == Append(key[b], x)
           h == Append(hidden[Owner(b)], x)
           env2 == IF Fault = "dirty" /\ Len(k) = 2 THEN 1 ELSE env
       IN /\ clause' = Clause(memo, "", FALSE, k, h, env, env2)
          /\ memo' = Learn(memo, k, h)
          /\ hidden' = [hidden EXCEPT ![Owner(b)] = h]
          /\ key' = [key EXCEPT ![b] = k]
          /\ env' = env2
Flawed(b, f) ==
    /\ More
    /\ LET raised == ~(Fault = "lax" /\ f = "state" /\ Len(hidden[b]) = 1)
       IN clause' = Clause(memo, f, raised, key[b], <<>>, env, env)
    /\ hidden' = IF Fault = "trace" /\ f = "unknown" THEN [hidden EXCEPT ![b] = Append(@, "x")] ELSE hidden
    /\ UNCHANGED <<key, env, memo>>
Next == \E b \in Builder : Renew(b) \/ (\E x \in Ask : Valid(b, x)) \/ (\E f \in Flaws : Flawed(b, f))
Spec == Init /\ [][Next]_vars
Quiet == clause = ""
Functional == \A m, n \in memo : m[1] = n[1] => m[2] = n[2]
=============================================================================
