------------------------------- MODULE TracePF -------------------------------
(* Tables of the particle filter (noise-free movement model) against the dead-*)
(* reckoned track and the fixes.                                              *)
EXTENDS TraceBase
P == INSTANCE ParticleLoop WITH MaxT <- 1, ND <- 1, NU <- 1, dr <- <<>>, fx <- <<>>, i <- 1, j <- 1, out <- <<>>
D == INSTANCE DeadReckoning WITH Step <- 9000, att <- <<0, 0, 0>>

Mm(x, k) == D!RDiv(x * k, 10000)
Geo(e, r) == \A k \in 1..Len(r) : D!Near(Mm(r[k].lat, e.kn), D!RDiv(r[k].n, 10), 12) /\ D!Near(Mm(r[k].lon, e.ke), D!RDiv(r[k].e, 10), 12)
Clauses(e) ==
  LET dt == [k \in 1..Len(e.dr) |-> e.dr[k].t]
      ft == [k \in 1..Len(e.fixes) |-> e.fixes[k].t]
      ev == SetToSortSeq(P!Items(dt, ft), LAMBDA x, y : P!Before(dt, ft, x, y))
      n  == Len(ev)
      r  == e.pf
      c  == e.centre
      same == Cardinality(D!Poses(e.ori, e.vel)) = Len(e.dr) /\ n = Len(r) /\ n = Len(c) /\ \A k \in 1..n : r[k].t = P!Time(dt, ft, ev[k]) /\ c[k].t = r[k].t
      (* the pose that describes the movement of step k                       *)
      Src(k) == LET s == {q \in 1..k : ev[q][1] = "pose"} IN IF s = {} THEN 1 ELSE ev[D!MaxOf(s)][2]
      ps == SetToSortSeq(D!Poses(e.ori, e.vel), LAMBDA a, b : a < b)
      Step(k) == D!Ground(e.ori, e.vel, ps[Src(k)], e.geo.dvl)
      arm(k) == D!Rotate(r[k].a[1], r[k].a[2], r[k].a[3], D!Minus(e.geo.origin, e.geo.dvl))
      darm(k) == D!Rotate(r[k].a[1], r[k].a[2], r[k].a[3], D!Minus(e.geo.origin, e.geo.depth))
      AN(x, y) == D!Abs(D!AngDiff(x, y, 36000)) <= 1
  IN IF e.status # "ok" THEN {"the command finishes"}
     ELSE Violated(
  [one_row_per_pose_and_fix_in_time_order |-> same,
   each_fix_weighed_once |-> e.watched => e.weighed = [k \in 1..Cardinality({q \in 1..n : ev[q][1] = "fix"}) |->
        e.fixes[ev[CHOOSE q \in 1..n : ev[q][1] = "fix" /\ Cardinality({p \in 1..q : ev[p][1] = "fix"}) = k][2]].t],
   starts_at_the_track |-> same => D!Near(r[1].n, e.dr[1].n, 1) /\ D!Near(r[1].e, e.dr[1].e, 1),
   attitude_and_altitude_of_the_latest_pose |-> same => \A k \in 1..n : LET o == e.dr[Src(k)] IN
        /\ AN(r[k].a[1], o.a[1]) /\ AN(r[k].a[2], o.a[2]) /\ AN(r[k].a[3], o.a[3])
        /\ D!Near(r[k].h, o.h, 1),
   moves_with_the_velocity |-> same => \A k \in 2..n :
        LET d == r[k].t - r[k - 1].t
            s == Step(k)
            tol == 3 + (15 * d) \div 1000
        IN /\ D!Near(r[k].n - r[k - 1].n, D!RDiv(s[1] * d, 1000), tol)
           /\ D!Near(r[k].e - r[k - 1].e, D!RDiv(s[2] * d, 1000), tol),
   depth_follows_the_sensor |-> same => \A k \in 2..n :
        D!Abs(r[k].d - e.dr[Src(k)].d) <= 3 + (15 * (r[k].t - r[k - 1].t)) \div 1000 + D!RDiv(D!Abs(Step(k)[3]) * (r[k].t - r[k - 1].t), 1000),
   latitude_and_longitude |-> Geo(e, r) /\ Geo(e, c),
   centre_is_a_lever_arm_away |-> same => \A k \in 1..n :
        D!Near(c[k].n, r[k].n + arm(k)[1], 20) /\ D!Near(c[k].e, r[k].e + arm(k)[2], 20)
        /\ D!Near(c[k].h, r[k].h - arm(k)[3], 20) /\ D!Near(c[k].d, r[k].d + darm(k)[3], 20)])

Init == TraceInit
Next == Consume(Clauses(Ev))
Spec == Init /\ [][Next]_tvars
=============================================================================
