--------------------------- MODULE NoiseOpsTrace ---------------------------
(***************************************************************************)
(* Trace specification: histories of calls to one real noise model and its *)
(* setup.  ops: load, param, var (as in SetupParamsTrace), and             *)
(*   call: g (operation), q (targets: sequences of one or two qubits),     *)
(*         t (duration of an idle step), raised, ev (events of the circuit, in order):     *)
(*           [e: "op", g, q, b, p]  one target of an ideal operation       *)
(*           [e: "ch", q, v]        one channel (v: integer units)         *)
(***************************************************************************)
EXTENDS NoiseOps, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, pc, T, err
vars == <<cid, pc, T, err>>
Init == cid \in 1..Len(Cases) /\ pc = 1 /\ T = EmptyTables /\ err = ""
Case == Cases[cid]
Op == Case.ops[pc]
ToSet(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE Fill(_, _, _)
Fill(R, q, l) == IF l = <<>> THEN R ELSE Fill(SetParam(R, l[1].p, l[1].v, q), q, Tail(l))
RECURSIVE Load(_, _)
Load(R, ds) == IF ds = <<>> THEN R ELSE Load(Fill(R, ds[1].q, ds[1].p), Tail(ds))

Abs(x) == IF x < 0 THEN -x ELSE x
Same(v, E) == Len(v) = Len(E) /\ \A i \in 1..Len(v) : Abs(v[i] * E[i].d - E[i].n) <= E[i].d
IsZero(E) == \A i \in 1..Len(E) : E[i].n = 0
Null(v) == \A i \in 1..Len(v) : v[i] = 0
(* Y is also flipped by Z *)
Alt(E, b) == IF b = "Y" /\ E[2].n = 0 THEN <<E[2], E[2], E[1]>> ELSE E
Matches(v, E, b) == Same(v, E) \/ (Len(E) = 3 /\ Same(v, Alt(E, b)))

(* the channels vs match the expected ones, in some order *)
Agree(vs, es, b) ==
    LET A == SelectSeq(vs, LAMBDA v : ~Null(v))
        E == SelectSeq(es, LAMBDA e : ~IsZero(e))
    IN Len(A) = Len(E) /\ CASE Len(E) = 0 -> TRUE
                            [] Len(E) = 1 -> Matches(A[1], E[1], b)
                            [] Len(E) = 2 -> (Matches(A[1], E[1], b) /\ Matches(A[2], E[2], b))
                                             \/ (Matches(A[1], E[2], b) /\ Matches(A[2], E[1], b))

(* decoherence acts on every qubit of a pair on its own *)
Units(kind, tq) == IF Decoheres(kind) THEN [i \in 1..Len(tq) |-> <<tq[i]>>] ELSE <<tq>>

Ideal(o) ==
    IF o.g \in MeasOp THEN [i \in 1..Len(o.q) |-> [g |-> "M", q |-> o.q[i], b |-> Basis(o.g)]]
    ELSE IF o.g \in ResetOp THEN [i \in 1..Len(o.q) |-> [g |-> "R", q |-> o.q[i], b |-> Basis(o.g)]]
    ELSE IF o.g \in {"idle", "incoming"} THEN <<>>
    ELSE [i \in 1..Len(o.q) |-> [g |-> StimName[o.g], q |-> o.q[i], b |-> ""]]

Real(o) == LET s == SelectSeq(o.ev, LAMBDA e : e.e = "op" /\ e.g # "I")
           IN [i \in 1..Len(s) |-> [g |-> s[i].g, q |-> s[i].q, b |-> s[i].b]]
(* the targets of one call are distinct; only outcomes have an order *)
SameIdeal(o) == LET R == Real(o) I == Ideal(o)
                    N(x) == IF x.g \in {"CZ", "SWAP"} THEN [x EXCEPT !.q = {x.q[1], x.q[2]}] ELSE x
                IN IF o.g \in MeasOp THEN R = I
                   ELSE Len(R) = Len(I) /\ {N(R[i]) : i \in 1..Len(R)} = {N(I[i]) : i \in 1..Len(I)}

PosOf(o, tq) == {i \in 1..Len(o.ev) : o.ev[i].e = "op" /\ o.ev[i].g # "I" /\ ToSet(tq) \subseteq ToSet(o.ev[i].q)}
Pair(q) == {q[i] : i \in 1..Len(q)}
Chans(o, u, lo, hi) ==
    LET s == SelectSeq([i \in 1..Len(o.ev) |-> [i |-> i, x |-> o.ev[i]]],
                       LAMBDA z : z.x.e = "ch" /\ Pair(z.x.q) = Pair(u) /\ z.i > lo /\ z.i < hi)
    IN [j \in 1..Len(s) |-> s[j].x.v]
Side(o, tq, u, es, before) ==
    LET ps == PosOf(o, tq)
        at == IF ps = {} THEN 0 ELSE CHOOSE i \in ps : TRUE
    IN IF before THEN Agree(Chans(o, u, 0, at), es, Basis(o.g))
       ELSE Agree(Chans(o, u, at, Len(o.ev) + 1), es, Basis(o.g))

Time(o) == IF o.g = "idle" THEN o.t ELSE IF o.g \in DOMAIN DurName THEN Case.dur[DurName[o.g]] ELSE 0
Exp(o, u) == Expected(T, Case.kind, o.g, u, Time(o))
AllUnits(o) == UNION {{<<tq, u>> : u \in ToSet(Units(Case.kind, tq))} : tq \in ToSet(o.q)}
Failing(o) == \/ \E z \in AllUnits(o) : Exp(o, z[2]).fail
              \/ o.g \in MeasOp /\ \E tq \in ToSet(o.q) : Assign(T, Case.kind, tq) = NoVal
NoisyEv(o) == {i \in 1..Len(o.ev) : o.ev[i].e = "ch" /\ ~Null(o.ev[i].v)}

Call(o) ==
    IF Failing(o) THEN (IF o.raised THEN "" ELSE "accepted")
    ELSE IF o.raised THEN "rejected"
    ELSE IF ~SameIdeal(o) THEN "ideal operation"
    ELSE IF \E i \in NoisyEv(o) : ~\E z \in AllUnits(o) : Pair(z[2]) = Pair(o.ev[i].q) THEN "noise elsewhere"
    ELSE IF \E z \in AllUnits(o) : ~Side(o, z[1], z[2], Exp(o, z[2]).before, TRUE) THEN "noise before"
    ELSE IF \E z \in AllUnits(o) : ~Side(o, z[1], z[2], Exp(o, z[2]).after, FALSE) THEN "noise after"
    ELSE IF o.g \in MeasOp /\ \E i \in 1..Len(o.ev) :
              o.ev[i].e = "op" /\ Abs(o.ev[i].p - Val(Assign(T, Case.kind, o.ev[i].q).n)) > 1 THEN "assignment error"
    ELSE ""

Clause(o) == IF o.op = "call" THEN Call(o) ELSE IF o.raised THEN "rejected" ELSE ""
Step == /\ pc <= Len(Case.ops) /\ err = ""
        /\ err' = Clause(Op)
        /\ T' = CASE Op.op = "load" -> Load(EmptyTables, Op.dicts)
                  [] Op.op = "param" -> SetParam(T, Op.p, Op.v, Op.q)
                  [] Op.op = "var" -> SetVar(T, Op.x, Op.v)
                  [] OTHER -> T
        /\ pc' = pc + 1
        /\ UNCHANGED cid
Done == /\ pc <= Len(Case.ops) + 1 /\ (err # "" \/ pc > Len(Case.ops))
        /\ IF err = "" THEN PrintT(<<"OK", Case.id>>) ELSE PrintT(<<"BAD", Case.id, pc - 1, err>>)
        /\ pc' = Len(Case.ops) + 2
        /\ UNCHANGED <<cid, T, err>>
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
