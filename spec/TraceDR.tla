------------------------------- MODULE TraceDR -------------------------------
(* Dead-reckoning tables written by auv_nav process against the specification. *)
EXTENDS TraceBase
D == INSTANCE DeadReckoning WITH Step <- 9000, att <- <<0, 0, 0>>

Ps(e) == SetToSortSeq(D!Poses(e.ori, e.vel), LAMBDA a, b : a < b)

Clauses(e) ==
  LET ps == Ps(e)
      dv == e.dvl
      ce == e.centre
      n  == Len(ps)
      same == n = Len(dv) /\ n = Len(ce)
      G  == [k \in 1..n |-> D!Ground(e.ori, e.vel, ps[k], e.geo.dvl)]
      Near(a, b, tol) == D!Near(a, b, tol)
      AN(x, y) == D!Abs(D!AngDiff(x, y, 36000)) <= 1
      arm(k, f) == D!Arm(e.ori[ps[k]], e.geo[f], e.geo.origin)
  IN IF e.status # "ok" THEN {"dead reckoning finishes"}
     ELSE Violated(
  [one_pose_per_orientation |-> same /\ \A k \in 1..n : dv[k].t = e.ori[ps[k]].t /\ ce[k].t = e.ori[ps[k]].t,
   attitude_is_the_reading |-> same => \A k \in 1..n : \A q \in 1..3 :
        AN(dv[k].a[q], e.ori[ps[k]].a[q]) /\ AN(ce[k].a[q], e.ori[ps[k]].a[q]),
   starts_at_the_origin |-> same => dv[1].n = 0 /\ dv[1].e = 0,
   accumulates_ground_velocity |-> same => \A k \in 2..n :
        LET dt == dv[k].t - dv[k - 1].t
            m == D!Moved(G[k - 1], G[k], dt)
            tol == 3 + (15 * dt) \div 1000
        IN Near(dv[k].n - dv[k - 1].n, m[1], tol) /\ Near(dv[k].e - dv[k - 1].e, m[2], tol),
   depth_at_its_time |-> same => \A k \in 1..n : D!Covered(e.dep, dv[k].t) => Near(dv[k].d, D!At(e.dep, dv[k].t), 2),
   altitude_at_its_time |-> same => \A k \in 1..n : D!Covered(e.alt, dv[k].t) => Near(dv[k].h, D!At(e.alt, dv[k].t), 2),
   centre_is_a_lever_arm_away |-> same => \A k \in 1..n :
        Near(ce[k].n, dv[k].n + arm(k, "dvl")[1], 20) /\ Near(ce[k].e, dv[k].e + arm(k, "dvl")[2], 20),
   altitude_of_the_centre |-> same => \A k \in 1..n : Near(ce[k].h, dv[k].h - arm(k, "dvl")[3], 20),
   depth_of_the_centre |-> same => \A k \in 1..n : Near(ce[k].d, dv[k].d + arm(k, "depth")[3], 20)])

Init == TraceInit
Next == Consume(Clauses(Ev))
Spec == Init /\ [][Next]_tvars
=============================================================================
