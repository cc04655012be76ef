------------------------------- MODULE TraceRig -------------------------------
(* Calibrations of rigs of known geometry.  Numbers are scaled: focal lengths  *)
(* and principal points in 1/100 pixel, lengths in 0.1 mm, angles in 1e-4 rad, *)
(* plane coefficients in 1e-4.                                                 *)
EXTENDS TraceBase
P == INSTANCE CalPairs
vars == <<l, bad>>
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= tol[i]
All(n, x) == [i \in 1..n |-> x]
Mono(e) == [done |-> e.status = "ok",
            intrinsics |-> e.status = "ok" => Near(e.got, e.true, <<e.ftol, e.ftol, e.ctol, e.ctol>>),
            board_error |-> e.status = "ok" => e.rms <= e.maxrms,
            cache_agrees |-> e.again # <<>> => Near(e.again, e.got, All(4, 2))]
Stereo(e) == [done |-> e.status = "ok",
              cameras |-> e.status = "ok" => Near(e.k1, e.k1true, e.ktol) /\ Near(e.k2, e.k2true, e.ktol),
              translation |-> e.status = "ok" => Near(e.t, e.ttrue, All(3, e.ttol)),
              rotation |-> e.status = "ok" => Near(e.r, e.rtrue, All(3, e.rtol)),
              \* the rectification turns both cameras the same way and the baseline along one image axis
              rectification |-> e.status = "ok" => e.parallel <= 20 /\ e.baseline <= 20]
\* shots: <<stamp or -1 of camera 1, of camera 2, line visible in both>>
InBoth(s) == s[1] >= 0 /\ s[2] >= 0
Pairing(e) == LET S == e.shots
                  L == P!Stamps(S, 1) R == P!Stamps(S, 2)
                  pairs == {<<P!Owner(S, 1, q[1]), P!Owner(S, 2, q[2])>> : q \in P!Pairs(L, R)}
              IN {q[1] : q \in pairs}
Laser(e) ==
  LET paired == Pairing(e)
      good(k) == k \in paired /\ e.shots[k][3] = 1
  IN [done |-> e.status = "ok",
      every_shot |-> e.status = "ok" => \A k \in DOMAIN e.shots : good(k) => e.count[k] >= e.least,
      only_pairs |-> e.status = "ok" => \A k \in DOMAIN e.shots : ~good(k) => e.count[k] <= 2,
      points_on_plane |-> e.status = "ok" => 15 * e.stray <= e.total,
      plane |-> e.status = "ok" => Near(e.plane, e.ptrue, e.ptol),
      uncertainty |-> e.status = "ok" => Len(e.planes) = e.planes_wanted /\ \A i \in DOMAIN e.planes : Near(e.planes[i], e.ptrue, e.utol),
      strata |-> e.status = "ok" => \A b \in DOMAIN e.bins : e.bins[b][2] = (IF e.bins[b][1] < e.per_bin THEN e.bins[b][1] ELSE e.per_bin),
      outside |-> e.status = "ok" => e.outside = 0,
      centre |-> e.status = "ok" => Near(e.centre, e.cloud, All(3, 60)),
      cache_agrees |-> e.again # <<>> => Near(e.again, e.plane, All(4, 30))]
\* image lists paired by name or by stamp
SetOf2(s) == {s[i] : i \in DOMAIN s}
Lists(e) == [pairs |-> SetOf2(e.got) = (IF e.by = "name" THEN P!Same(e.left, e.right) ELSE P!Pairs(e.left, e.right)), once |-> Len(e.got) = Cardinality(SetOf2(e.got))]
Clauses(e) == CASE e.op = "mono" -> Mono(e) [] e.op = "stereo" -> Stereo(e) [] e.op = "laser" -> Laser(e) [] OTHER -> Lists(e)
Next == Consume(Violated(Clauses(Ev)))
Spec == TraceInit /\ [][l <= Len(Trace) /\ Next]_vars
=============================================================================
