---------------------------- MODULE TraceParticles ----------------------------
(* Particles recorded before and after each fix.                              *)
EXTENDS TraceBase
P == INSTANCE Particles WITH N <- 1, M <- 1, wt <- <<>>, u <- 0, d <- 0, src <- 1, cum <- 0, cnt <- <<>>
Clauses(e) ==
  IF e.status # "ok" THEN {"the filter finishes"}
  ELSE IF P!Mass(e.p) < 3000000 THEN {}
  ELSE LET W == P!Post(e.p) IN Violated(
  [weighed_by_the_likelihood_of_the_fix |->
        P!Unsure(W) \/ IF P!Degenerate(W) THEN P!Drawn(e.p, W) ELSE P!Kept(e.p, W),
   track_is_the_most_likely_particle |-> e.last => \E b \in {e.best[k] : k \in DOMAIN e.best} : \A i \in DOMAIN W : W[i] <= W[b] + P!Tol(W[i])])
Init == TraceInit
Next == Consume(Clauses(Ev))
Spec == Init /\ [][Next]_tvars
=============================================================================
