------------------------------- MODULE TraceEkf -------------------------------
(* Runs of the Kalman filter: the table of its poses against the states of a  *)
(* reference filter whose steps (e.log) and gate decisions (e.gates) are      *)
(* those of the specification.                                                *)
EXTENDS TraceBase
L == INSTANCE EkfLoop WITH MaxT <- 1, NR <- 1, st <- <<>>, from <- 0, to <- 0, idx <- <<>>, cur <- 0, log <- <<>>, pc <- ""
G == INSTANCE EkfGate WITH M <- 1, V <- 1, Thr <- 1, x <- 0, p <- 1, z <- 0, r <- 1, ang <- FALSE
Clauses(e) ==
  LET ts == L!Times(e.s, e.from, e.to)
      n == Len(ts)
      same == Len(e.rows) = n /\ \A k \in 1..n : e.rows[k].t = ts[k]
      N(a, b, tol) == G!Near(a, b, tol)
      AN(a, b) == G!Abs(G!AngDiff(a, b, 36000)) <= 2
      P(k) == e.rows[k]
      R(k) == e.ref[k]
      rej == {k \in 1..Len(e.gates) : ~e.gates[k].used}
  IN IF e.status # "ok" THEN {"the command finishes"}
     ELSE IF e.log # L!Steps(e.s, e.from, e.to) \/ \E k \in 1..Len(e.gates) : e.gates[k].used # G!Accept(e.gates[k].d2, e.gates[k].g2)
     THEN {"reference filter departs from the specification"}
     ELSE Violated(
  [a_pose_at_every_reading_and_image_in_time_order |-> same,
   position |-> same => \A k \in 1..n : N(P(k).n, R(k).n, 3) /\ N(P(k).e, R(k).e, 3) /\ N(P(k).d, R(k).d, 3),
   attitude |-> same => \A k \in 1..n : \A q \in 1..3 : AN(P(k).a[q], R(k).a[q]),
   altitude |-> same => \A k \in 1..n : N(P(k).h, R(k).h, 3),
   uncertainty |-> same => \A k \in 1..n : \A q \in 1..12 : N(P(k).s[q], R(k).s[q], 3 + R(k).s[q] \div 2000),
   wanted_poses |-> same => \A k \in 1..n : e.smoothed \/ P(k).a[3] \in -18001..36000])
Init == TraceInit
Next == Consume(Clauses(Ev))
Spec == Init /\ [][Next]_tvars
=============================================================================
