--------------------------- MODULE TraceEkfOutput ---------------------------
(* Image tables of the Kalman filter against the table of its poses.          *)
EXTENDS TraceBase
O == INSTANCE EkfOutput WITH MaxT <- 1, NI <- 1, st <- <<>>, im <- <<>>, i <- 1, j <- 1, out <- <<>>
P == INSTANCE PoseInterp WITH Step <- 9000, att <- <<0, 0, 0>>
Mm(x, k) == P!RDiv(x * k, 10000)
Clauses(e) ==
  LET ts == [k \in 1..Len(e.states) |-> e.states[k].t]
      w == SelectSeq(e.samples, LAMBDA s : s.t >= e.from /\ s.t <= e.to)
      r == e.rows
      n == Len(w)
      same == Len(r) = n /\ \A k \in 1..n : r[k].f = w[k].f /\ r[k].t = w[k].t
      S(k) == e.states[CHOOSE q \in 1..Len(ts) : ts[q] = w[k].t]
      known == \A k \in 1..n : \E q \in 1..Len(ts) : ts[q] = w[k].t
      go == same /\ known
      arm(k) == P!Rotate(S(k).a[1], S(k).a[2], S(k).a[3], e.arm)
      N(a, b, t) == P!Near(a, b, t)
  IN IF e.status # "ok" THEN {"the command finishes"}
     ELSE Violated(
  [filter_covers_the_track |-> Len(ts) > 0 /\ ts[1] = e.from /\ ts[Len(ts)] = e.to,
   a_state_at_every_image |-> known,
   each_image_once_in_order |-> same,
   position_moved_by_the_lever_arm |-> go => \A k \in 1..n : N(r[k].n, S(k).n + arm(k)[1], 25) /\ N(r[k].e, S(k).e + arm(k)[2], 25),
   depth_moved_by_the_lever_arm |-> go => \A k \in 1..n : N(r[k].d, S(k).d + arm(k)[3], 25),
   altitude_moved_by_the_lever_arm |-> go => \A k \in 1..n : N(r[k].h, S(k).h - arm(k)[3], 25),
   attitude |-> go => \A k \in 1..n : \A q \in 1..3 : P!AngNear(r[k].a[q], S(k).a[q], 2),
   uncertainty |-> go => \A k \in 1..n : \A q \in 1..12 : N(r[k].s[q], S(k).s[q], 2 + S(k).s[q] \div 100000),
   covariance_of_the_same_image |-> e.cov => Len(e.covrows) = Len(r) /\ \A k \in 1..Len(r) : e.covrows[k].f = r[k].f /\ e.covrows[k].odd = 0
        /\ \A q \in 1..6 : N(e.covrows[k].s[q], r[k].s[q], 2 + r[k].s[q] \div 100000),
   latitude_and_longitude_of_the_same_point |-> same => \A k \in 1..n :
        N(Mm(r[k].lat, e.kn), P!RDiv(r[k].n, 10), 12) /\ N(Mm(r[k].lon, e.ke), P!RDiv(r[k].e, 10), 12)])
Init == TraceInit
Next == Consume(Clauses(Ev))
Spec == Init /\ [][Next]_tvars
=============================================================================
