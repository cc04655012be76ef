---------------------------- MODULE TraceNavFile ----------------------------
(* op "dive": want -- readings put into the logs, got -- the navigation file  *)
(* in file order without the origin; each <<what, day, ms, value>>.           *)
EXTENDS TraceBase
F == INSTANCE NavFile WITH NParsers <- 0, MaxLen <- 0, MaxT <- 0, logs <- <<>>, at <- <<>>, got <- <<>>,
     compiled <- 0, file <- <<>>, phase <- ""
Ordered(s) == \A i \in 1..(Len(s) - 1) : F!TLeq(<<s[i][2], s[i][3]>>, <<s[i + 1][2], s[i + 1][3]>>)
DiveClauses(e) ==
  [ completed |-> e.status = "ok",
    origin_first |-> e.status = "ok" => e.origin = e.first,
    every_reading_once |-> e.status = "ok" => F!SameBag(e.want, e.got),
    chronological |-> Ordered(e.got),
    same_under_other_schedule |-> e.got = e.again /\ e.same ]
UnusableClauses(e) == [ stops |-> e.status \in {"quit", "crash"}, no_navigation_file |-> ~e.written ]
Next == l <= Len(Trace) /\ Consume(Violated(IF Ev.op = "dive" THEN DiveClauses(Ev) ELSE UnusableClauses(Ev)))
Spec == TraceInit /\ [][Next]_tvars
=============================================================================
