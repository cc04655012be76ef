----------------------------- MODULE TraceFixLog -----------------------------
(* One parsed log of fixes per event.                                         *)
EXTENDS TraceBase
F == INSTANCE FixLog WITH N <- 0, MaxT <- 0, log <- <<>>, out <- <<>>, rule <- ""
Key(t, a, b) == <<t, a, b>>
Clauses(e) ==
  IF e.status # "ok" THEN {"log_is_read"}
  ELSE LET W == F!Files(e.files, e.rule)
           want == [i \in DOMAIN W |-> [lt |-> W[i].t, t |-> F!Utc(W[i].t, e.tz, e.off), lat |-> F!Arc(W[i].lat), lon |-> F!Arc(W[i].lon), d |-> W[i].d, r |-> W[i].r]]
           got == e.recs
           \* records of one log are in order of time; fixes of one time in any order
           Same(w, g) == F!Near(w.t, g.t, 1) /\ F!Near(w.lat, g.lat, 1) /\ F!Near(w.lon, g.lon, 1)
           Count(s, x) == Cardinality({i \in DOMAIN s : Same(s[i], x)})
       IN Violated(
  [every_own_fix_once |-> \A i \in DOMAIN want : Count(got, want[i]) = Count(want, want[i]),
   nothing_else |-> Len(got) = Len(want),
   depth |-> \A i \in DOMAIN want : \E k \in DOMAIN got : Same(want[i], got[k]) /\ F!Near(want[i].d, got[k].d, 1),
   metric_position |-> \A k \in DOMAIN got : LET g == got[k] IN
        /\ F!Near(g.lat, e.lat0, 100000) /\ F!Near(g.lon, e.lon0, 100000)
        /\ F!Near(g.n, F!RDiv((g.lat - e.lat0) * e.mlat, 1000), 30) /\ F!Near(g.e, F!RDiv((g.lon - e.lon0) * e.mlon, 1000), 30),
   distance |-> e.basis = "range" => \A i \in DOMAIN want : \E k \in DOMAIN got : Same(want[i], got[k]) /\ F!Near(want[i].r, got[k].dist, 1),
   slant |-> e.basis = "slant" => \A k \in DOMAIN got : LET g == got[k] IN
        F!Slant(F!RDiv(g.dist, 10), F!RDiv(F!RDiv((g.lat - g.ship[1]) * e.mlat, 1000), 10), F!RDiv(F!RDiv((g.lon - g.ship[2]) * e.mlon, 1000), 10), F!RDiv(g.d, 10)),
   ship |-> e.basis = "slant" => \A k \in DOMAIN got : LET g == got[k] IN \E i \in DOMAIN want : Same(want[i], g) /\
        /\ \E o \in F!Closest(e.ship.pos, want[i].lt) : F!Near(F!Arc(o.lat), g.ship[1], 1) /\ F!Near(F!Arc(o.lon), g.ship[2], 1)
        /\ \E o \in F!Closest(e.ship.hdg, want[i].lt) : F!Near(o.h, g.ship[5], 1)
        /\ F!Near(g.ship[3], F!RDiv((g.ship[1] - e.lat0) * e.mlat, 1000), 30) /\ F!Near(g.ship[4], F!RDiv((g.ship[2] - e.lon0) * e.mlon, 1000), 30),
   uncertainty |-> e.fac >= 0 => \A k \in DOMAIN got : \E i \in DOMAIN want :
        Same(want[i], got[k]) /\ \A s \in 1..3 : F!Near(got[k].s[s], F!RDiv(e.fac * (IF e.basis = "slant" THEN got[k].dist ELSE want[i].r), 100) + e.foff, 6 + e.fac \div 50)])
Init == TraceInit
Next == Consume(Clauses(Ev))
Spec == Init /\ [][Next]_tvars
=============================================================================
