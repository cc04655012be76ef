-------------------------------- MODULE Convert --------------------------------
(* auv_nav convert: pose files of other groups to and from the tables of the  *)
(* pipeline.  Units: t ms, positions mm, lat/lon 1e-7 degree, angles 0.01     *)
(* degree (in ACFR files 1e-5 rad).                                           *)
EXTENDS Num
(* --- what ends up in a row ----------------------------------------------- *)
(* an ACFR vehicle pose [t, lat, lon, n, e, d, x, y, z, h]: x, y, z are the   *)
(* roll, pitch and heading of the vehicle                                     *)
VehicleRow(p) == [t |-> p.t, lat |-> p.lat, lon |-> p.lon, n |-> p.n, e |-> p.e, d |-> p.d, h |-> p.h, a |-> <<p.x, p.y, p.z>>]
(* the frame of a stereo rig that looks down and backwards                    *)
RigRow(p) == [t |-> p.t, lat |-> p.lat, lon |-> p.lon, n |-> p.n, e |-> p.e, d |-> p.d, h |-> p.h, a |-> <<p.y, -p.x, p.z + 9000>>]
(* 0.01 degree to 1e-5 rad                                                    *)
Rad(a) == a * 17 + RDiv(a * 4533, 10000)
SameA(x, y, tol) == \A k \in 1..2 : Near(x[k], y[k], tol)
SameYaw(x, y, tol) == Abs(AngDiff(x, y, 36000)) <= tol
Same(r, p, tol) == /\ r.t = p.t /\ Near(r.lat, p.lat, tol) /\ Near(r.lon, p.lon, tol) /\ Near(r.n, p.n, tol) /\ Near(r.e, p.e, tol) /\ Near(r.d, p.d, tol) /\ Near(r.h, p.h, tol)
                   /\ SameA(r.a, p.a, tol) /\ SameYaw(r.a[3], p.a[3], tol)
(* --- a pose between two rows ---------------------------------------------- *)
In(rows, t) == Len(rows) >= 2 /\ rows[1].t <= t /\ t <= rows[Len(rows)].t
Between(rows, t) ==
  LET b == CHOOSE k \in 2..Len(rows) : rows[k - 1].t <= t /\ t <= rows[k].t
      p == rows[b - 1] q == rows[b]
      f(x, y) == Lerp(t, p.t, x, q.t, y)
  IN [t |-> t, lat |-> f(p.lat, q.lat), lon |-> f(p.lon, q.lon), n |-> f(p.n, q.n), e |-> f(p.e, q.e), d |-> f(p.d, q.d), h |-> f(p.h, q.h),
      a |-> << f(p.a[1], q.a[1]), f(p.a[2], q.a[2]), p.a[3] + f(0, AngDiff(q.a[3], p.a[3], 36000)) >>]
(* a half turn has no shortest arc                                            *)
Half(rows, t) == \E k \in 2..Len(rows) : rows[k - 1].t <= t /\ t <= rows[k].t /\ Abs(AngDiff(rows[k].a[3], rows[k - 1].a[3], 36000)) > 17990
(* --- the combined sensor log: a line per measurement, except that a body    *)
(* velocity needs an altitude and an orientation received since the last      *)
(* velocity line                                                              *)
Fresh == [alt |-> 0, ori |-> 0]
Step(st, i, kind) ==
  IF kind = "alt" THEN [st |-> [st EXCEPT !.alt = i], out |-> <<>>]
  ELSE IF kind = "ori" THEN [st |-> [st EXCEPT !.ori = i], out |-> << <<"ori", i, 0, 0>> >>]
  ELSE IF kind = "vel" THEN IF st.alt # 0 /\ st.ori # 0 THEN [st |-> Fresh, out |-> << <<"vel", i, st.alt, st.ori>> >>] ELSE [st |-> st, out |-> <<>>]
  ELSE IF kind \in {"late", "ivel"} THEN [st |-> st, out |-> <<>>]
  ELSE [st |-> st, out |-> << <<kind, i, 0, 0>> >>]
RECURSIVE Fold(_, _, _, _)
Fold(kinds, i, st, out) == IF i > Len(kinds) THEN out ELSE LET s == Step(st, i, kinds[i]) IN Fold(kinds, i + 1, s.st, out \o s.out)
Lines(kinds) == Fold(kinds, 1, Fresh, <<>>)
(* --- what a command may write --------------------------------------------- *)
(* held: outputs present.  Outputs are produced in order; the first one that  *)
(* is already there stops the command unless it was told to overwrite.        *)
RECURSIVE Made(_, _, _)
Made(held, want, force) == IF want = <<>> \/ (want[1] \in held /\ ~force) THEN <<>> ELSE <<want[1]>> \o Made(held, Tail(want), force)
Refused(held, want, force) == Len(Made(held, want, force)) < Len(want)
-----------------------------------------------------------------------------
CONSTANTS Outs, Kinds, MaxRun, MaxRec
VARIABLES out, ver, recs, st, lines, forced
vars == <<out, ver, recs, st, lines, forced>>
Wants == {<<"centre">>, <<"cams">>, <<"centre", "cams">>, <<"cams", "laser">>, <<"centre", "cams", "laser">>}
Init == out = [o \in Outs |-> 0] /\ ver = 0 /\ recs = <<>> /\ st = Fresh /\ lines = <<>> /\ forced = FALSE
Run == /\ ver < MaxRun /\ ver' = ver + 1
       /\ \E w \in Wants, f \in BOOLEAN :
            LET m == Rng(Made({o \in Outs : out[o] # 0}, w, f))
            IN out' = [o \in Outs |-> IF o \in m THEN ver' ELSE out[o]] /\ forced' = f
       /\ UNCHANGED <<recs, st, lines>>
Rec == /\ Len(recs) < MaxRec
       /\ \E k \in Kinds : LET s == Step(st, Len(recs) + 1, k) IN recs' = Append(recs, k) /\ st' = s.st /\ lines' = lines \o s.out
       /\ UNCHANGED <<out, ver, forced>>
Next == Run \/ Rec
Spec == Init /\ [][Next]_vars
Protected == [][~forced' => \A o \in Outs : out[o] # 0 => out'[o] = out[o]]_<<out, forced, ver>>
FoldAgrees == Lines(recs) = lines
(* every velocity line combines an altitude and an orientation that came      *)
(* before it and after the previous velocity line                             *)
VelLines == {i \in DOMAIN lines : lines[i][1] = "vel"}
FreshParts == \A i \in VelLines : \A k \in 3..4 : lines[i][k] < lines[i][2] /\ \A j \in VelLines : j < i => lines[i][k] > lines[j][2]
OneEach == \A i \in DOMAIN recs : recs[i] \in {"ori", "dep", "usbl", "img"} => Cardinality({k \in DOMAIN lines : lines[k][2] = i}) = 1
InOrder == \A i, j \in DOMAIN lines : i < j => lines[i][2] < lines[j][2]
=============================================================================
