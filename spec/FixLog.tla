-------------------------------- MODULE FixLog --------------------------------
(* Logs of acoustic (or satellite) fixes, one fix per row.  A row is           *)
(* [t, own, ok, lat, lon, d, r]: local time in ms, whether it belongs to the   *)
(* configured beacon, whether it can be read, position in 1/10000 minute of    *)
(* arc as <<degrees, minutes, negative>>, depth and range in cm.               *)
EXTENDS Num
Arc(a) == (IF a[3] THEN -1 ELSE 1) * (a[1] * 600000 + a[2])
Kept(r) == r.own /\ r.ok
Utc(t, tz, off) == t - tz + off
(* formats with a running clock keep the last of the rows that do not advance *)
(* it; the others keep every row                                              *)
Record(out, r, rule) ==
  IF ~Kept(r) THEN out
  ELSE IF rule = "latest" /\ out # <<>> /\ r.t <= out[Len(out)].t THEN [out EXCEPT ![Len(out)] = r]
  ELSE Append(out, r)
RECURSIVE Log(_, _, _)
Log(out, rows, rule) == IF rows = <<>> THEN out ELSE Log(Record(out, Head(rows), rule), Tail(rows), rule)
(* files of a log are read independently of each other                        *)
RECURSIVE Files(_, _)
Files(fs, rule) == IF fs = <<>> THEN <<>> ELSE Log(<<>>, Head(fs), rule) \o Files(Tail(fs), rule)
(* the ship is where its observation closest in time puts it                  *)
Closest(obs, t) == LET m == MinOf({Abs(o.t - t) : o \in Rng(obs)}) IN {o \in Rng(obs) : Abs(o.t - t) <= m + 1}
(* slant distance (dm) from offsets in dm                                     *)
Slant(dist, n, e, d) == Near(dist * dist, n * n + e * e + d * d, 8 * dist + 16)
-----------------------------------------------------------------------------
(* Model: all logs of up to N rows.                                           *)
CONSTANTS N, MaxT
VARIABLES log, out, rule
vars == <<log, out, rule>>
Rows == [t : 0..MaxT, own : BOOLEAN, ok : BOOLEAN]
Init == log = <<>> /\ out = <<>> /\ rule \in {"all", "latest"}
Next == Len(log) < N /\ \E r \in Rows : log' = Append(log, r) /\ out' = Record(out, r, rule) /\ UNCHANGED rule
Spec == Init /\ [][Next]_vars
Mine == SelectSeq(log, Kept)
Complete == rule = "all" => out = Mine
OnlyMine == \A i \in DOMAIN out : Kept(out[i]) /\ \E k \in DOMAIN log : log[k] = out[i]
Running == rule = "latest" => \A i \in 1..(Len(out) - 1) : out[i].t < out[i + 1].t \/ \E k \in DOMAIN Mine : Mine[k].t > out[i].t
LastCounts == rule = "latest" /\ Mine # <<>> => out[Len(out)] = Mine[Len(Mine)]
Foreign == Log(<<>>, Mine, rule) = Log(<<>>, log, rule)
=============================================================================
