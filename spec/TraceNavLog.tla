----------------------------- MODULE TraceNavLog -----------------------------
(* One sensor of one parsed log per event.                                    *)
EXTENDS TraceBase
F == INSTANCE NavLog WITH N <- 0, MaxT <- 0, log <- <<>>, out <- <<>>, rule <- ""
Clauses(e) ==
  IF e.status # "ok" THEN {"log_is_read"}
  ELSE LET W == F!Files(e.files, e.rule)
           want == [i \in DOMAIN W |-> [t |-> F!Utc(W[i].t, e.tz, e.off), v |-> F!Placed(e.cat, W[i].v, e.turn), raw |-> W[i].v, e |-> W[i].e]]
           got == e.recs
           Ang(k) == e.cat = "orientation" /\ k = 1
           SameT(w, g) == F!Near(w.t, g.t, 1) /\ F!Near(w.t, g.t2, 1)
           SameV(w, g) == Len(g.v) = Len(w.v) /\ \A k \in DOMAIN w.v : IF Ang(k) THEN F!Abs(F!AngDiff(w.v[k], g.v[k], 3600000)) <= 2 ELSE F!Near(w.v[k], g.v[k], 2)
           Count(s, w) == Cardinality({i \in DOMAIN s : F!Near(s[i].t, w.t, 1)})
           SdOf(w, k) == IF e.fac < 0 THEN w.e ELSE F!Std(IF e.raw THEN w.raw[k] ELSE w.v[k], e.fac, e.foff)
       IN Violated(
  [every_reading_once |-> \A i \in DOMAIN want : Count(got, want[i]) = Count(want, want[i]),
   nothing_else |-> Len(got) = Len(want),
   values |-> \A i \in DOMAIN want : \E k \in DOMAIN got : SameT(want[i], got[k]) /\ SameV(want[i], got[k]),
   heading_in_turn |-> e.cat = "orientation" /\ e.fmt = "ae2000" => \A k \in DOMAIN got : got[k].v[1] \in 0..3600000,
   uncertainty |-> \A i \in DOMAIN want : \E k \in DOMAIN got :
        SameT(want[i], got[k]) /\ \A j \in DOMAIN want[i].v : F!Near(got[k].s[j], SdOf(want[i], j), 3)])
Init == TraceInit
Next == Consume(Clauses(Ev))
Spec == Init /\ [][Next]_tvars
=============================================================================
