------------------------------- MODULE TracePose -------------------------------
(* Pose tables of cameras, lasers and payloads against the track they are     *)
(* interpolated from.  An event is one table: the track, the samples offered, *)
(* the lever arm of the sensor and the rows written.                          *)
EXTENDS TraceBase
P == INSTANCE PoseInterp WITH Step <- 9000, att <- <<0, 0, 0>>

Want(e) == SelectSeq(e.samples, LAMBDA s : P!Closed(e.track, s.t))
Pose(e, s) == IF s.t = e.track[1].t THEN P!PoseAt(<<e.track[1], [e.track[1] EXCEPT !.t = @ + 1]>>, s.t, e.arm)
              ELSE P!PoseAt(e.track, s.t, e.arm)
(* latitude/longitude offsets (1e-8 degree) in mm, e.k = mm per 1e-4 degree    *)
Mm(x, k) == P!RDiv(x * k, 10000)

Clauses(e) ==
  LET w == Want(e)
      r == e.rows
      same == Len(w) = Len(r) /\ \A k \in 1..Len(w) : r[k].f = w[k].f /\ (e.timed => r[k].t = w[k].t)
      skip(k) == Len(e.track) > 1 /\ w[k].t # e.track[1].t /\ P!Ambiguous(e.track, w[k].t)
      ps == [k \in 1..Len(w) |-> Pose(e, w[k])]
      N(a, b, tol) == P!Near(a, b, tol)
  IN IF e.status # "ok" THEN {"the command finishes"}
     ELSE Violated(
  [each_sample_in_the_span_once_in_order |-> same,
   position_at_its_own_time |-> same => \A k \in 1..Len(w) : skip(k) \/
        (N(r[k].n, ps[k].n, 25) /\ N(r[k].e, ps[k].e, 25)),
   depth_at_its_own_time |-> same => \A k \in 1..Len(w) : skip(k) \/ N(r[k].d, ps[k].d, 25),
   altitude_at_its_own_time |-> same => \A k \in 1..Len(w) : skip(k) \/ N(r[k].h, ps[k].h, 25),
   attitude_at_its_own_time |-> same /\ e.posed => \A k \in 1..Len(w) : skip(k) \/
        (P!AngNear(r[k].a[1], ps[k].a[1], 2) /\ P!AngNear(r[k].a[2], ps[k].a[2], 2) /\ P!AngNear(r[k].a[3], ps[k].a[3], 2)
         /\ r[k].a[3] >= 0 /\ r[k].a[3] <= 36000),
   latitude_and_longitude_of_the_same_point |-> same => \A k \in 1..Len(w) :
        N(Mm(r[k].lat, e.kn), P!RDiv(r[k].n, 10), 12) /\ N(Mm(r[k].lon, e.ke), P!RDiv(r[k].e, 10), 12)])

Init == TraceInit
Next == Consume(Clauses(Ev))
Spec == Init /\ [][Next]_tvars
=============================================================================
