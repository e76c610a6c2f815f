---------------------------- MODULE DatasetTrace ----------------------------
(***************************************************************************)
(* Trace specification: a case is one dataset sampled by the real code     *)
(* (read by label), with the order, parities, bits and relations of the    *)
(* experiment it was sampled from.                                         *)
(***************************************************************************)
EXTENDS Dataset, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, pc
Init == cid \in 1..Len(Cases) /\ pc = 0
Ran(f) == {f[x] : x \in DOMAIN f}
C == Cases[cid]
A == Ran(C.ancs)
D == Ran(C.datas)
Label(s) == [anc |-> [r \in 1..C.rounds |-> [a \in A |-> s.anc[r][CHOOSE i \in DOMAIN C.ancs : C.ancs[i] = a]]],
             data |-> [d \in D |-> s.data[CHOOSE i \in DOMAIN C.datas : C.datas[i] = d]]]
Ok(s, par, rels) == LET l == Label(s) IN
                    /\ C.def # <<>> => Consistent(l, C.order, A, par, C.var, C.def)
                    /\ \A r \in Ran(rels) : Holds(l, C.order, A, r)
(* The shots are those from lag shots before, or at least half of many are *)
Same(lag) == {i \in DOMAIN C.out : i > lag /\ C.out[i] = C.out[i - lag]}
Repeats(lag) == LET n == Len(C.out) - lag IN
                IF n >= 40 THEN 2 * Cardinality(Same(lag)) >= n ELSE n >= 20 /\ Cardinality(Same(lag)) = n
Verdict ==
    IF C.wrong THEN (IF C.raised THEN "" ELSE "wrong number of rounds accepted")
    ELSE IF C.raised THEN "raised"
    ELSE IF ~WellFormed(C.order, A, D, C.rounds) THEN "experiment"
    ELSE IF C.labels # [shot |-> [i \in 1..C.shots |-> i - 1], round |-> [i \in 1..C.rounds |-> i],
                        anc |-> C.ancs, data |-> C.datas, seed |-> C.seed] THEN "labels"
    ELSE IF [x \in DOMAIN C.dims |-> Ran(C.dims[x])] # [anc_meas |-> {"shot", "qec_round", "anc_qubit"}, data_meas |-> {"shot", "data_qubit"},
                      ideal_anc_meas |-> {"qec_round", "anc_qubit"}, ideal_data_meas |-> {"data_qubit"}] THEN "dimensions"
    ELSE IF ~C.bits THEN "not bits"
    ELSE IF \E i \in DOMAIN C.out : ~Ok(C.out[i], C.par, C.rels) THEN "outcomes"
    ELSE IF C.many /\ \E lag \in 1..(Len(C.out) - 20) : Repeats(lag) THEN "the shots repeat"
    ELSE IF C.def # <<>> /\ \E k \in DOMAIN C.order : Value(Label(C.ideal), Cell(C.order, A, k)) # C.ideal_par[k] THEN "ideal outcomes"
    ELSE IF \E r \in Ran(C.ideal_rels) : ~Holds(Label(C.ideal), C.order, A, r) THEN "ideal relations"
    ELSE IF C.changed THEN "arguments changed"
    ELSE IF ~C.again THEN "the same seed gives other outcomes"
    ELSE IF C.many /\ ~C.fresh THEN "other seeds give the same outcomes"
    ELSE ""
Next == /\ pc = 0 /\ pc' = 1 /\ UNCHANGED cid
        /\ IF Verdict = "" THEN PrintT(<<"OK", C.id>>) ELSE PrintT(<<"BAD", C.id, Verdict>>)
Spec == Init /\ [][Next]_<<cid, pc>>
=============================================================================
