------------------------------ MODULE TraceTide ------------------------------
(* One event per parsed dive and sensor: the tide table, and for every       *)
(* reading <<time, depth logged by the sensor, depth in the navigation file>>*)
EXTENDS TraceBase
T == INSTANCE Tide WITH MaxT <- 0, MaxH <- 0, NTides <- 0, NReadings <- 0,
                        tab <- <<>>, readings <- <<>>, k <- 0, j <- 0, out <- <<>>

Clauses(e) ==
  [ completed |-> e.status = "ok",
    all_readings_present |-> e.missing = 0,
    correction_inside_span |->
       \A i \in DOMAIN e.readings :
          T!InSpan(e.tides, e.readings[i][1])
             => T!Corrected(e.tides, e.readings[i][1], e.readings[i][2], e.readings[i][3], 2),
    untouched_outside_span |->
       \A i \in DOMAIN e.readings :
          ~T!InSpan(e.tides, e.readings[i][1]) => T!Near(e.readings[i][3], e.readings[i][2], 1),
    other_sensors_untouched |->
       \A i \in DOMAIN e.others : T!Near(e.others[i][1], e.others[i][2], 1) ]

Next == l <= Len(Trace) /\ Consume(Violated(Clauses(Ev)))
Spec == TraceInit /\ [][Next]_tvars
=============================================================================
