---------------------------- MODULE DeadReckoning ----------------------------
(* Dead reckoning: one pose per orientation reading taken while velocities    *)
(* are available.  Units: ms, 0.1 mm, 0.1 mm/s, 0.01 degree.                  *)
(* A velocity is [t, v], an orientation [t, a] with a = <<roll, pitch, yaw>>,  *)
(* depth and altitude readings are [t, y]; a geometry maps frame names to     *)
(* positions <<surge, sway, heave>> on the vehicle.                           *)
EXTENDS Trig

Bracket(s, t) == CHOOSE b \in 2..Len(s) : s[b - 1].t <= t /\ t <= s[b].t
Covered(s, t) == Len(s) >= 2 /\ s[1].t <= t /\ t <= s[Len(s)].t
At(s, t) == LET b == Bracket(s, t) IN Lerp(t, s[b - 1].t, s[b - 1].y, s[b].t, s[b].y)
VelAt(vel, t) == LET b == Bracket(vel, t)
                 IN [k \in 1..3 |-> Lerp(t, vel[b - 1].t, vel[b - 1].v[k], vel[b].t, vel[b].v[k])]

(* the orientation readings that become poses (indices)                       *)
Poses(ori, vel) == {i \in DOMAIN ori : vel[1].t <= ori[i].t /\ ori[i].t <= vel[Len(vel)].t}

(* angular rate (0.01 degree/s) at orientation i by central differences       *)
Rate(ori, i) ==
  LET a == IF i = 1 THEN ori[1] ELSE ori[i - 1]
      b == IF i = Len(ori) THEN ori[i] ELSE ori[i + 1]
      d == <<b.a[1] - a.a[1], b.a[2] - a.a[2], AngDiff(b.a[3], a.a[3], 36000)>>
  IN [k \in 1..3 |-> RDiv(d[k] * 1000, b.t - a.t)]
(* rate (0.01 deg/s) times arm (0.1 mm) in 0.1 mm/s: factor pi/18000          *)
WxR(w, r) == LET p(a, b) == RDiv(RDiv(w[a] * r[b], 1000) * 1745, 10000)
             IN <<p(2, 3) - p(3, 2), p(3, 1) - p(1, 3), p(1, 2) - p(2, 1)>>

(* velocity over ground, in north/east/down                                   *)
Ground(ori, vel, i, dvl) ==
  LET o == ori[i]
      v == VelAt(vel, o.t)
      c == WxR(Rate(ori, i), dvl)
  IN Rotate(o.a[1], o.a[2], o.a[3], [k \in 1..3 |-> v[k] + c[k]])
(* displacement between consecutive poses                                     *)
Moved(v0, v1, dt) == [k \in 1..2 |-> RDiv((v0[k] + v1[k]) * dt, 2000)]

Arm(o, from, to) == Rotate(o.a[1], o.a[2], o.a[3], Minus(to, from))
=============================================================================
