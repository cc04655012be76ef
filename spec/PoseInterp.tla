----------------------------- MODULE PoseInterp -----------------------------
(* The pose of a sample taken between two poses of a track.  A track pose is  *)
(* [t, n, e, d, h, a] (ms, 0.1 mm, altitude h, attitude a in 0.01 degree).    *)
EXTENDS Trig

Strict(track, t) == Len(track) >= 2 /\ track[1].t < t /\ t < track[Len(track)].t
Closed(track, t) == Len(track) >= 1 /\ track[1].t <= t /\ t <= track[Len(track)].t
Br(track, t) == CHOOSE b \in 2..Len(track) : track[b - 1].t <= t /\ t <= track[b].t

L(track, b, t, y0, y1) == Lerp(t, track[b - 1].t, y0, track[b].t, y1)
Att(track, t) ==
  LET b == Br(track, t) p == track[b - 1] q == track[b]
  IN << L(track, b, t, p.a[1], q.a[1]), L(track, b, t, p.a[2], q.a[2]),
        (p.a[3] + L(track, b, t, 0, AngDiff(q.a[3], p.a[3], 36000))) % 36000 >>
(* position of a sensor whose lever arm from the track's reference is `arm'   *)
PoseAt(track, t, arm) ==
  LET b == Br(track, t) p == track[b - 1] q == track[b]
      a == Att(track, t)
      o == Rotate(a[1], a[2], a[3], arm)
  IN [n |-> L(track, b, t, p.n, q.n) + o[1], e |-> L(track, b, t, p.e, q.e) + o[2],
      d |-> L(track, b, t, p.d, q.d) + o[3], h |-> L(track, b, t, p.h, q.h) - o[3], a |-> a]

AngNear(x, y, tol) == Abs(AngDiff(x, y, 36000)) <= tol
(* a half turn between poses has no shortest arc                              *)
Ambiguous(track, t) == LET b == Br(track, t) IN Abs(AngDiff(track[b].a[3], track[b - 1].a[3], 36000)) > 17990
=============================================================================
