---------------------------- MODULE CircuitTrace ----------------------------
(***************************************************************************)
(* Trace specification: every case is a circuit recorded from the real     *)
(* surface-sim code plus a list of operators (products of outcomes, with   *)
(* an optional Pauli at the end of the circuit) and what the property says *)
(* about them.  The machine runs each circuit backwards, one instruction   *)
(* per step, pulling back all operators, and judges them on the way:       *)
(*   exp.kind = "det"   deterministic, any value                           *)
(*              "val"   deterministic with value exp.v                     *)
(*              "flow"  the operator at the start is exactly exp.x, exp.z, *)
(*                      with sign exp.v (2: any sign)                      *)
(*              "init"  deterministic, the parity of the initial bitstring *)
(*                      over the qubits exp.fz                             *)
(*              "log"   deterministic, the value of logical qubit exp.v    *)
(*                      after the logical program of the case              *)
(*              "anti"  the operator at the start anticommutes exactly     *)
(*                      with the operators exp.fx of case.gens             *)
(*              "prod"  the operator at the start is exactly the ordered  *)
(*                      product of the operators exp.fx of case.gens       *)
(*                      times the phase i^exp.v                            *)
(*              "free"  no requirement on determinism                      *)
(*   exp.hz > 0: before instruction hz the operator has no support on the  *)
(*              qubits exp.hq (it only depends on what happened since).    *)
(***************************************************************************)
EXTENDS Pauli, LogicalTrack, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
NCases == Len(Cases)

VARIABLES cid, pc, ops
vars == <<cid, pc, ops>>

Start(p) == [x |-> ToSet(p.x), z |-> ToSet(p.z), s |-> 0, ok |-> ""]

Init == /\ cid \in 1..NCases
        /\ pc = Len(Cases[cid].instr)
        /\ ops = [k \in 1..Len(Cases[cid].prods) |-> Start(Cases[cid].prods[k])]

(* clause violated by product k when the machine stands before instruction pc *)
Local(p, P) == (P.x \cup P.z) \cap ToSet(p.hq) = {}

StepOp(i, p, P) ==
    LET Q == Back(i, P, ToSet(p.m))
    IN IF Q.ok = "" /\ p.hz = pc /\ ~Local(p, Q) THEN [Q EXCEPT !.ok = "nonlocal"] ELSE Q

Step == /\ pc > 0
        /\ pc' = pc - 1
        /\ ops' = [k \in DOMAIN ops |-> StepOp(Cases[cid].instr[pc], Cases[cid].prods[k], ops[k])]
        /\ UNCHANGED cid

Case == Cases[cid]
GenOp(g) == [x |-> ToSet(g.x), z |-> ToSet(g.z), s |-> 0, ok |-> ""]
AntiSet(P) == {k \in 1..Len(Case.gens) : Anti(P, GenOp(Case.gens[k]))}
(* product of Pauli operators, with a phase i^p in place of the sign bit *)
Mult(A, C) == LET x == SymDiff(A.x, C.x)
                  z == SymDiff(A.z, C.z)
              IN [x |-> x, z |-> z,
                  p |-> (A.p + C.p + Cardinality(A.x \cap A.z) + Cardinality(C.x \cap C.z)
                         + 2 * Cardinality(A.z \cap C.x) - Cardinality(x \cap z)) % 4]
RECURSIVE ProdOf(_, _)
ProdOf(q, k) == IF k = 0 THEN [x |-> {}, z |-> {}, p |-> 0]
                ELSE Mult(ProdOf(q, k - 1), [x |-> ToSet(Case.gens[q[k]].x), z |-> ToSet(Case.gens[q[k]].z), p |-> 0])
ProdClause(p, P) ==
    LET R == ProdOf(p.fx, Len(p.fx))
    IN IF P.x # R.x \/ P.z # R.z THEN "action"
       ELSE IF (R.p + p.v) % 4 # 2 * P.s THEN "sign" ELSE ""
Value(P, v) == IF P.x # {} THEN "random" ELSE IF P.s # v THEN "value" ELSE ""

Clause(p, P) ==
    CASE P.ok = "nonlocal" -> "nonlocal"
      [] P.ok = "unsupported" -> "unsupported"
      [] p.kind = "free" -> ""
      [] P.ok # "" -> "random"
      [] p.kind = "det" -> IF P.x # {} THEN "random" ELSE ""
      [] p.kind = "val" -> Value(P, p.v)
      [] p.kind = "init" -> Value(P, Parity(ToSet(Case.prog.init) \cap ToSet(p.fz)))
      [] p.kind = "log" -> Value(P, LTValue(Case.prog, p.v))
      [] p.kind = "anti" -> IF AntiSet(P) # ToSet(p.fx) THEN "action" ELSE ""
      [] p.kind = "prod" -> ProdClause(p, P)
      [] p.kind = "flow" -> IF P.x # ToSet(p.fx) \/ P.z # ToSet(p.fz) THEN "flow"
                            ELSE IF p.v # 2 /\ P.s # p.v THEN "sign" ELSE ""
      [] OTHER -> "kind"

Bad == {k \in DOMAIN ops : Clause(Cases[cid].prods[k], ops[k]) # ""}

Done == /\ pc = 0
        /\ pc' = -1
        /\ IF Bad = {} THEN PrintT(<<"OK", Cases[cid].id>>)
           ELSE LET k == CHOOSE j \in Bad : \A l \in Bad : j <= l
                IN PrintT(<<"BAD", Cases[cid].id, k, Clause(Cases[cid].prods[k], ops[k]), Cardinality(Bad)>>)
        /\ UNCHANGED <<cid, ops>>

Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
