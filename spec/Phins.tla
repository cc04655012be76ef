------------------------------- MODULE Phins -------------------------------
(* The PHINS message stream.  A log is a sequence of lines; each line is a    *)
(* record [ok, kind, t, v]: ok -- well formed with a matching checksum,       *)
(* kind -- message type, t -- the time of day the message carries in ms       *)
(* (-1: unreadable, e.g. 60 s), v -- its numbers (scaled integers).           *)
(* The stream is consumed line by line by four independent machines           *)
(* (attitude, body velocity, depth, altitude).  A reading is emitted when it  *)
(* is complete and the latest time message was readable; it carries that      *)
(* message's time.  Lines that are not ok have no effect at all.              *)
EXTENDS Integers, Sequences, FiniteSets
None == -1

S0 == [ts |-> None,
       yaw |-> <<>>, att |-> <<>>, std |-> <<>>,
       dep |-> <<>>, dts |-> None,
       alt |-> <<>>, ats |-> None, dvl |-> None,
       ori |-> <<>>, vel |-> <<>>, deps |-> <<>>, alts |-> <<>>]

(* quarter turns q of the sensor about the vertical axis                      *)
Rot(q, x, y) == CASE q = 0 -> <<x, y>> [] q = 1 -> <<-y, x>> [] q = 2 -> <<-x, -y>> [] q = 3 -> <<y, -x>>

\* ---- attitude machine
OriIn(s, e, q) ==
  CASE e.kind = "HEAD" -> [s EXCEPT !.yaw = <<e.v[1]>>]
    [] e.kind = "ATT"  -> [s EXCEPT !.att = IF s.yaw = <<>> THEN <<-e.v[1], -e.v[2]>>
                                            ELSE Rot(q, -e.v[1], -e.v[2])]
    [] e.kind = "STD"  -> [s EXCEPT !.std = e.v]
    [] OTHER -> s
OriOut(s) == IF s.ts # None /\ s.yaw # <<>> /\ s.att # <<>> /\ s.std # <<>>
             THEN [s EXCEPT !.ori = Append(@, <<s.ts, s.yaw[1], s.att[1], s.att[2]>>), !.yaw = <<>>, !.att = <<>>]
             ELSE s
\* ---- body velocity machine
VelStep(s, e, q) ==
  IF e.kind = "DVL" /\ s.ts # None /\ e.t # None
  THEN [s EXCEPT !.vel = Append(@, <<s.ts, e.t, Rot(q, e.v[1], e.v[2])[1], -Rot(q, e.v[1], e.v[2])[2], -e.v[3]>>)]
  ELSE s
\* ---- depth machine
DepStep(s, e) ==
  IF e.kind # "DEP" THEN s
  ELSE LET d == IF e.t # None THEN e.t ELSE s.dts IN
       IF s.ts # None /\ d # None
       THEN [s EXCEPT !.deps = Append(@, <<s.ts, d, e.v[1]>>), !.dts = None]
       ELSE [s EXCEPT !.dts = d]
\* ---- altitude machine
AltStep(s, e) ==
  LET a == IF e.kind = "ALT" THEN [s EXCEPT !.alt = <<e.v[1]>>, !.ats = s.dvl]
           ELSE IF e.kind = "DVL" THEN [s EXCEPT !.dvl = e.t] ELSE s
  IN IF e.kind \in {"ALT", "DVL"} /\ a.alt # <<>> /\ a.ts # None /\ a.ats # None
     THEN [a EXCEPT !.alts = Append(@, <<a.ts, a.ats, a.alt[1]>>), !.alt = <<>>, !.ats = None]
     ELSE a

Step(s, e, q) ==
  IF ~e.ok THEN s
  ELSE LET s1 == IF e.kind = "TIME" THEN [s EXCEPT !.ts = e.t] ELSE s
       IN AltStep(DepStep(VelStep(OriOut(OriIn(s1, e, q)), e, q), e), e)

-----------------------------------------------------------------------------
(* Bounded exploration of all message streams                                *)
CONSTANTS MaxLen, Quarter
VARIABLES s, n, valid
vars == <<s, n, valid>>
Lines == [ok : {TRUE}, kind : {"TIME"}, t : {None, 1, 2}, v : {<<>>}]
   \cup [ok : {TRUE}, kind : {"HEAD", "DEP", "ALT"}, t : {None, 5}, v : {<<7>>}]
   \cup [ok : {TRUE}, kind : {"ATT", "STD", "DVL"}, t : {6}, v : {<<1, 2, 3>>}]
   \cup [ok : {FALSE}, kind : {"TIME", "DVL"}, t : {4}, v : {<<9, 9, 9>>}]
Init == s = S0 /\ n = 0 /\ valid = {}
Feed(e) == /\ n < MaxLen /\ n' = n + 1 /\ s' = Step(s, e, Quarter)
           /\ valid' = IF e.ok /\ e.kind = "TIME" /\ e.t # None THEN valid \cup {e.t} ELSE valid
Next == \E e \in Lines : Feed(e)
Spec == Init /\ [][Next]_vars

Outs == {s.ori, s.vel, s.deps, s.alts}
\* only times of readable, intact time messages are ever used as stamps
StampsAreReal == \A o \in Outs : \A i \in DOMAIN o : o[i][1] \in valid
\* nothing is emitted while the latest time message is unreadable
NoTimeNoOutput == [][s'.ts = None => s'.ori = s.ori /\ s'.vel = s.vel /\ s'.deps = s.deps /\ s'.alts = s.alts]_vars
\* outputs only grow, at most one reading per machine and line
AppendOnly == [][ /\ Len(s'.ori) \in {Len(s.ori), Len(s.ori) + 1}
                  /\ Len(s'.vel) \in {Len(s.vel), Len(s.vel) + 1} ]_vars
\* a corrupted line has no effect
CorruptIgnored == \A e \in Lines : ~e.ok => Step(s, e, Quarter) = s
=============================================================================
