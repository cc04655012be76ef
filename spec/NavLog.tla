-------------------------------- MODULE NavLog --------------------------------
(* Logs of one navigation sensor, one reading per row.  A row is              *)
(* [t, ok, v, e]: local time in ms, whether it holds a usable reading, its    *)
(* values in 1/10000 of their unit and the error the sensor states.           *)
EXTENDS Num
Utc(t, tz, off) == t - tz + off
(* rules of the formats: "all" keeps every reading, "latest" replaces the     *)
(* previous reading by one that does not advance the clock, "changed" keeps   *)
(* only readings that differ from the one before                              *)
Record(out, r, rule) ==
  IF ~r.ok THEN out
  ELSE IF rule = "latest" /\ out # <<>> /\ r.t <= out[Len(out)].t THEN [out EXCEPT ![Len(out)] = r]
  ELSE IF rule = "changed" /\ out # <<>> /\ out[Len(out)].v = r.v THEN out
  ELSE Append(out, r)
RECURSIVE Log(_, _, _)
Log(out, rows, rule) == IF rows = <<>> THEN out ELSE Log(Record(out, Head(rows), rule), Tail(rows), rule)
RECURSIVE Files(_, _)
Files(fs, rule) == IF fs = <<>> THEN <<>> ELSE Log(<<>>, Head(fs), rule) \o Files(Tail(fs), rule)
(* the sensor is turned by quarter turns about the vertical                   *)
Turn(v, q) == CASE q = 0 -> v
                [] q = 1 -> <<-v[2], v[1], v[3]>>
                [] q = 2 -> <<-v[1], -v[2], v[3]>>
                [] q = 3 -> <<v[2], -v[1], v[3]>>
(* heading, roll, pitch: the heading is turned                                *)
Head3(v, q) == <<(v[1] + 900000 * q) % 3600000, v[2], v[3]>>
Placed(cat, v, q) == IF cat = "velocity" THEN Turn(v, q) ELSE IF cat = "orientation" THEN Head3(v, q) ELSE v
(* standard deviation in 1/100000, from a factor in 1/1000 and an offset      *)
Std(x, fac, off) == RDiv(fac * Abs(x), 100) + off
-----------------------------------------------------------------------------
(* Model: all logs of up to N rows.                                           *)
CONSTANTS N, MaxT
VARIABLES log, out, rule
vars == <<log, out, rule>>
Rows == [t : 0..MaxT, ok : BOOLEAN, v : {<<1, 2, 3>>, <<-4, 0, 5>>}]
Init == log = <<>> /\ out = <<>> /\ rule \in {"all", "latest", "changed"}
Next == Len(log) < N /\ \E r \in Rows : log' = Append(log, r) /\ out' = Record(out, r, rule) /\ UNCHANGED rule
Spec == Init /\ [][Next]_vars
Good == SelectSeq(log, LAMBDA r : r.ok)
Complete == rule = "all" => out = Good
Genuine == \A i \in DOMAIN out : \E k \in DOMAIN Good : Good[k] = out[i]
LastCounts == rule # "changed" /\ Good # <<>> => out[Len(out)] = Good[Len(Good)]
CurrentValue == Good # <<>> => out[Len(out)].v = Good[Len(Good)].v
NoRepeats == rule = "changed" => \A i \in 1..(Len(out) - 1) : out[i].v # out[i + 1].v
InvalidIsNothing == Log(<<>>, Good, rule) = Log(<<>>, log, rule)
FourTurns == \A r \in Rows : Turn(Turn(r.v, 1), 3) = r.v /\ Turn(Turn(r.v, 1), 1) = Turn(r.v, 2)
=============================================================================
