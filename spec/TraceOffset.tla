----------------------------- MODULE TraceOffset -----------------------------
(* The dead-reckoned track of a dive processed with and without its acoustic  *)
(* fixes.                                                                      *)
EXTENDS TraceBase
U == INSTANCE UsblOffset WITH MaxT <- 1, R <- {0}, trk <- <<>>, fx <- <<>>, sh <- 0

Same(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k].t = b[k].t
Shift(a, b) == <<b[1].n - a[1].n, b[1].e - a[1].e>>
Constant(a, b, s) == \A k \in 1..Len(a) : U!Near(b[k].n - a[k].n, s[1], 2) /\ U!Near(b[k].e - a[k].e, s[2], 2)
Rest(a, b) == \A k \in 1..Len(a) : a[k].d = b[k].d /\ a[k].h = b[k].h /\ a[k].a = b[k].a
Mm(x, k) == U!RDiv(x * k, 10000)
Geo(e, r) == \A k \in 1..Len(r) : U!Near(Mm(r[k].lat, e.kn), U!RDiv(r[k].n, 10), 12) /\ U!Near(Mm(r[k].lon, e.ke), U!RDiv(r[k].e, 10), 12)

Clauses(e) ==
  LET ok == Same(e.centre0, e.centre) /\ Same(e.dvl0, e.dvl) /\ Len(e.centre) > 0 /\ Len(e.dvl) > 0
      s == Shift(e.centre0, e.centre)
      O == U!Overlapping(e.centre, e.fixes)
      n == Cardinality(O)
  IN IF e.status # "ok" THEN {"the command finishes"}
     ELSE Violated(
  [same_poses |-> ok,
   one_constant_offset |-> ok => Constant(e.centre0, e.centre, s) /\ Constant(e.dvl0, e.dvl, s),
   only_horizontal |-> ok => Rest(e.centre0, e.centre) /\ Rest(e.dvl0, e.dvl),
   mean_difference_vanishes |-> ok /\ n > 0 =>
        U!Near(U!Residual(e.centre, e.fixes, U!N), 0, 4 * n) /\ U!Near(U!Residual(e.centre, e.fixes, U!E), 0, 4 * n),
   no_overlap_no_offset |-> ok /\ n = 0 => U!Near(s[1], 0, 1) /\ U!Near(s[2], 0, 1),
   latitude_and_longitude |-> ok /\ Len(e.fixes) > 0 => Geo(e, e.centre) /\ Geo(e, e.dvl)])

Init == TraceInit
Next == Consume(Clauses(Ev))
Spec == Init /\ [][Next]_tvars
=============================================================================
