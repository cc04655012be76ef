-------------------------------- MODULE Tide --------------------------------
(* Tidal correction of depth readings (depth sensor and USBL).               *)
(*                                                                           *)
(* The tide prediction is a set of samples that may be spread over several   *)
(* files, in any order.  A reading whose time lies within the span of the    *)
(* prediction has the linearly interpolated tide height subtracted from its  *)
(* depth; a reading outside the span keeps its depth.  Readings come in the  *)
(* order in which the sensor log lists them, not necessarily in time order.  *)
EXTENDS Num, TLC

\* a tide table: sequence of <<time, height>> in any order, distinct times
Times(tab) == {tab[i][1] : i \in DOMAIN tab}
HeightAt(tab, t) == LET i == CHOOSE i \in DOMAIN tab : tab[i][1] = t IN tab[i][2]
InSpan(tab, t) == \E a, b \in Times(tab) : a <= t /\ t <= b
Below(tab, t) == MaxOf({a \in Times(tab) : a <= t})
Above(tab, t) == MinOf({a \in Times(tab) : a >= t})

\* the tide height `h' (scaled) that has to be subtracted at time t
IsTide(tab, t, h, tol) ==
  LET a == Below(tab, t)  b == Above(tab, t)
  IN OnLine(h, t, a, HeightAt(tab, a), b, HeightAt(tab, b), tol)

\* declarative meaning of the whole correction for one reading
Corrected(tab, t, raw, out, tol) ==
  IF InSpan(tab, t) THEN IsTide(tab, t, raw - out, tol) ELSE out = raw

\* sorted times of the table
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE <<MinOf(S)>> \o SortSet(S \ {MinOf(S)})

-----------------------------------------------------------------------------
(* The algorithm: one pass over the readings with a cursor into the sorted   *)
(* prediction, moved backwards and forwards as needed.                       *)
CONSTANTS MaxT, MaxH, NTides, NReadings
VARIABLES tab, readings, k, j, out
vars == <<tab, readings, k, j, out>>

Init == /\ \E ts \in SUBSET (0..MaxT) :
             /\ Cardinality(ts) = NTides
             /\ \E h \in [1..NTides -> 0..MaxH] :
                  tab = [i \in 1..NTides |-> <<SortSet(ts)[i], h[i] * 12>>]
        /\ readings \in [1..NReadings -> 0..MaxT]
        /\ k = 1 /\ j = 1 /\ out = <<>>

Back == /\ k <= NReadings /\ j > 1 /\ tab[j - 1][1] >= readings[k]
        /\ j' = j - 1 /\ UNCHANGED <<tab, readings, k, out>>
NeedBack == j > 1 /\ tab[j - 1][1] >= readings[k]
Fwd == /\ k <= NReadings /\ ~NeedBack /\ j < NTides /\ tab[j][1] < readings[k]
       /\ j' = j + 1 /\ UNCHANGED <<tab, readings, k, out>>
NeedFwd == j < NTides /\ tab[j][1] < readings[k]
Emit == /\ k <= NReadings /\ ~NeedBack /\ ~NeedFwd
        /\ LET t == readings[k]  i == IF j > 1 THEN j - 1 ELSE 1 IN
             out' = Append(out,
                IF t < tab[1][1] \/ t > tab[j][1] THEN 0
                ELSE Lerp(t, tab[i][1], tab[i][2], tab[j][1], tab[j][2]))
        /\ k' = k + 1 /\ UNCHANGED <<tab, readings, j>>
Next == Back \/ Fwd \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every reading handled so far has the declarative correction
CursorRefinesMeaning ==
  \A i \in 1..Len(out) : Corrected(tab, readings[i], 0, -out[i], 1)
\* the pass handles every reading
Terminates == <>(k = NReadings + 1)
=============================================================================
