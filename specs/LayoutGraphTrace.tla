-------------------------- MODULE LayoutGraphTrace --------------------------
(***************************************************************************)
(* Trace specification: a layout as it was given to the real code, and a   *)
(* sequence of calls with their answers.  The graph only changes through   *)
(* set and setxy; every answer is judged by LayoutGraph.tla.               *)
(***************************************************************************)
EXTENDS LayoutGraph, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, pc, g, err
vars == <<cid, pc, g, err>>
Fun(ps) == [d \in {ps[i][1] : i \in 1..Len(ps)} |-> (CHOOSE p \in ToSet(ps) : p[1] = d)[2]]
Given(c) == [n |-> c.n, attr |-> [q \in 1..c.n |-> Fun(c.attr[q])], edges |-> ToSet(c.edges), ind |-> c.ind, xy |-> c.xy]
Init == cid \in 1..Len(Cases) /\ pc = 1 /\ err = "" /\ g = Given(Cases[cid])
Ops == Cases[cid].ops
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
Whole(out, f) == Len(out) = Len(f) /\ \A q \in 1..Len(f) : out[q] = <<q, f[q]>>
Entries(out, want) == Len(out) = Cardinality(want) /\ \A i \in 1..Len(out) : out[i][3] = 1 /\ <<out[i][1], out[i][2]>> \in want
MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y
MaxOf(s) == CHOOSE x \in s : \A y \in s : x >= y
MustRaise(o) == CASE o.op = "setcoords" -> o.has /\ ~o.override
                  [] o.op = "chain" -> o.q = 0 \/ ~Chain(g, o.q)
                  [] o.op = "overlap" -> Overlap(o.ls)
                  [] OTHER -> FALSE
Right(o) ==
    CASE o.op = "qubits" -> o.out = Select(g, o.conds)
      [] o.op = "param" -> o.out = Param(g, o.a, o.q)
      [] o.op = "pairs" -> NeighborPairs(g, o.qs, o.d, o.out)
      [] o.op = "ends" -> NeighborEnds(g, o.qs, o.d, o.out)
      [] o.op = "adj" -> Entries(o.out, Adjacent(g))
      [] o.op = "proj" -> /\ Entries(o.out, Projected(g, o.t))
                          /\ ToSet(o.data) = Role(g, "data")
                          /\ ToSet(o.anc) = {q \in Role(g, "anc") : Has(g, q, "stab_type", o.t)}
      [] o.op = "support" -> /\ Len(o.out) = Len(o.qs)
                             /\ \A i \in 1..Len(o.qs) : /\ ToSet(o.out[i]) = Support(g, o.qs[i])
                                                        /\ Len(o.out[i]) = Cardinality(Support(g, o.qs[i]))
      [] o.op = "expand" -> Len(o.out) = Cardinality(Role(g, "anc")) /\ Expansion(g, ToSet(o.out), o.shape)
      [] o.op = "inds" -> o.out = Map(LAMBDA q : g.ind[q], o.qs)
      [] o.op = "allinds" -> Whole(o.out, g.ind)
      [] o.op = "minmax" -> o.out = <<MinOf(ToSet(g.ind)), MaxOf(ToSet(g.ind))>>
      [] o.op = "coords" -> o.out = Map(LAMBDA q : g.xy[q], o.qs)
      [] o.op = "allcoords" -> Whole(o.out, g.xy)
      [] o.op = "anccoords" -> ToSet(o.out) = {<<q, g.xy[q]>> : q \in Role(g, "anc")} /\ Len(o.out) = Cardinality(Role(g, "anc"))
      [] o.op = "setcoords" -> Connected(g) => Len(o.xy) = g.n /\ Reproduces(g, o.xy)
      [] o.op = "chain" -> IsRing(g, o.q) \/ Indexed(g, o.q, o.idx)
      [] OTHER -> TRUE
After(o) == CASE o.op = "set" -> SetParam(g, o.a, o.q, o.v)
              [] o.op = "setxy" -> SetCoord(g, o.q, o.v)
              [] o.op = "setcoords" /\ ~o.raised -> [g EXCEPT !.xy = o.xy]
              [] OTHER -> g
Step == /\ err = "" /\ pc > 0 /\ pc <= Len(Ops)
        /\ LET o == Ops[pc] IN
           /\ err' = IF MustRaise(o) # o.raised THEN o.op \o (IF o.raised THEN " fails" ELSE " accepted")
                     ELSE IF ~o.raised /\ ~Right(o) THEN o.op ELSE ""
           /\ g' = After(o)
           /\ pc' = IF err' = "" THEN pc + 1 ELSE pc
        /\ UNCHANGED cid
Done == /\ pc > 0 /\ (err # "" \/ pc > Len(Ops))
        /\ IF err = "" THEN PrintT(<<"OK", Cases[cid].id>>) ELSE PrintT(<<"BAD", Cases[cid].id, pc, err>>)
        /\ pc' = -1 /\ UNCHANGED <<cid, g, err>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
