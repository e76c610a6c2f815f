-------------------------- MODULE SurfaceCodeTrace --------------------------
(***************************************************************************)
(* Layouts that the real code generated, with the request: each is judged  *)
(* by the clauses of SurfaceCode.tla.  say holds what the layout says      *)
(* about itself: the labels of the logical qubits and the distances.       *)
(***************************************************************************)
EXTENDS SurfaceCode, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, pc
Init == cid \in 1..Len(Cases) /\ pc = 1
ToSet(q) == {q[i] : i \in 1..Len(q)}
Fun(ps) == [d \in {ps[i][1] : i \in 1..Len(ps)} |-> (CHOOSE p \in ToSet(ps) : p[1] = d)[2]]
Lay(c) == [n |-> c.n, typ |-> c.typ, lab |-> c.lab, ind |-> c.ind, xy |-> c.xy,
           nb |-> [q \in 1..c.n |-> Fun(c.nb[q])], order |-> c.order, logx |-> ToSet(c.logx), logz |-> ToSet(c.logz)]
Says(c) == /\ c.say.logical = <<c.req.label>>
           /\ c.say.dx = c.req.dx /\ c.say.dz = c.req.dz
           /\ c.req.dx = c.req.dz => c.say.d = c.req.dx
           /\ Len(c.logx) = Cardinality(ToSet(c.logx)) /\ Len(c.logz) = Cardinality(ToSet(c.logz))
           /\ \A q \in 1..c.n : Len(c.nb[q]) = c.nnb[q]
Verdict(c) == IF ~Says(c) THEN "description" ELSE Broken(Lay(c), c.req)
Judge == /\ pc = 1
         /\ LET c == Cases[cid]
                v == Verdict(c)
            IN IF v = "" THEN PrintT(<<"OK", c.id>>) ELSE PrintT(<<"BAD", c.id, 1, v>>)
         /\ pc' = -1 /\ UNCHANGED cid
Spec == Init /\ [][Judge]_<<cid, pc>>
=============================================================================
