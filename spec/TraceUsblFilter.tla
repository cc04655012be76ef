--------------------------- MODULE TraceUsblFilter ---------------------------
EXTENDS TraceBase
F == INSTANCE UsblFilter
U == INSTANCE UsblOffset WITH MaxT <- 1, R <- {0}, trk <- <<>>, fx <- <<>>, sh <- 0
Clauses(e) ==
  LET w == F!Survivors(e.fixes, e.dep, e.c)
      r == e.rows
      S == [k \in 1..Len(w) |-> [t |-> w[k].t, n |-> 100 * w[k].n, e |-> 100 * w[k].e]]
      n == IF Len(e.centre) > 1 THEN Cardinality(U!Overlapping(e.centre, S)) ELSE 0
      ids(s) == [k \in 1..Len(s) |-> s[k].t]
  IN IF e.status # "ok" THEN {"the command finishes"}
     ELSE Violated(
  [nothing_inconsistent_survives |-> F!Rng(ids(r)) \subseteq F!Rng(ids(w)),
   nothing_consistent_is_removed |-> F!Rng(ids(w)) \subseteq F!Rng(ids(r)),
   order_and_values_kept |-> Len(r) = Cardinality(F!Rng(ids(r))) /\ \A k \in 1..Len(r) :
        /\ k > 1 => r[k - 1].t < r[k].t
        /\ \E j \in 1..Len(e.fixes) : LET u == e.fixes[j] IN u.t = r[k].t /\ u.n = r[k].n /\ u.e = r[k].e /\ u.d = r[k].d,
   track_anchored_to_the_survivors |-> n > 0 =>
        U!Near(U!Residual(e.centre, S, U!N), 0, 4 * n) /\ U!Near(U!Residual(e.centre, S, U!E), 0, 4 * n)])
Init == TraceInit
Next == Consume(Clauses(Ev))
Spec == Init /\ [][Next]_tvars
=============================================================================
