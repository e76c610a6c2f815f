-------------------------- MODULE MeasRecordModel --------------------------
(* All interleavings of measuring, looking outcomes up and starting anew,  *)
(* on an implementation-like state (a log of absolute indices per qubit    *)
(* and a counter, as kept incrementally) that must refine MeasRecord.      *)
EXTENDS MeasRecord, TLC, Json
CONSTANTS Qubits, MaxMeas, MaxList, MaxLen, MinLen
Bases == {"X", "Y", "Z"}

VARIABLES rec, log, num, hist
vars == <<rec, log, num, hist>>

Init == /\ rec = Empty
        /\ log = [q \in Qubits |-> <<>>]
        /\ num = 0
        /\ hist = <<>>

RECURSIVE Add(_, _, _)
Add(l, n, list) == IF list = <<>> THEN l
                   ELSE Add([l EXCEPT ![Head(list)] = Append(@, n)], n + 1, Tail(list))

Lists == UNION {[1..n -> Qubits] : n \in 0..MaxList}
Measure(list, b) ==
    /\ num + Len(list) <= MaxMeas
    /\ rec' = Measured(rec, list, b)
    /\ log' = Add(log, num, list)
    /\ num' = num + Len(list)
    /\ hist' = Append(hist, [op |-> "meas", q |-> list, b |-> b])
NewCircuit == /\ rec' = Empty /\ log' = [q \in Qubits |-> <<>>] /\ num' = 0
              /\ hist' = Append(hist, [op |-> "new", q |-> <<>>, b |-> ""])
Rejected == /\ UNCHANGED <<rec, log, num>>
            /\ hist' = Append(hist, [op |-> "bad", q |-> <<>>, b |-> ""])
Next == /\ Len(hist) < MaxLen
        /\ \/ \E l \in Lists, b \in Bases : Measure(l, b)
           \/ NewCircuit
           \/ Rejected
Spec == Init /\ [][Next]_vars

(* for checking: the basis and the history are irrelevant to the look-ups *)
CheckStep == /\ \/ \E l \in Lists, b \in {"Z"} :
                      /\ num + Len(l) <= MaxMeas /\ l # <<>>
                      /\ rec' = Measured(rec, l, b) /\ log' = Add(log, num, l) /\ num' = num + Len(l)
                \/ rec' = Empty /\ log' = [q \in Qubits |-> <<>>] /\ num' = 0
             /\ UNCHANGED hist
CheckSpec == Init /\ [][CheckStep]_vars

(* python indexing of the log *)
Idx(q, k) == IF k >= 0 THEN log[q][k + 1] ELSE log[q][Len(log[q]) + k + 1]
Ks == -(MaxMeas + 1)..(MaxMeas + 1)
Refines == \A q \in Qubits, k \in Ks :
    /\ Exists(rec, q, k) <=> (k < Len(log[q]) /\ -k <= Len(log[q]))
    /\ Exists(rec, q, k) =>
         /\ Offset(rec, q, k) = Idx(q, k) - num
         /\ Offset(rec, q, k) \in -Len(rec)..-1
         /\ rec[Position(rec, q, k)].q = q
         /\ k >= 0 => Offset(rec, q, k) = Offset(rec, q, k - Count(rec, q))
Counts == num = Len(rec)
Distinct == \A p, q \in Qubits : \A j \in DOMAIN log[p], k \in DOMAIN log[q] :
                 log[p][j] = log[q][k] => p = q /\ j = k

Dump == (Len(hist) = MaxLen) => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
