-------------------------------- MODULE Gaps --------------------------------
(* The GAPS (USBL) packet stream of one log file.  Packets:                   *)
(*   [kind |-> "ship", t, lat, lon]      ship position                        *)
(*   [kind |-> "hdt", h]                 ship heading                         *)
(*   [kind |-> "fix", t, lat, lon, d, id, good]  beacon fix                   *)
(*   [kind |-> "other"]                  anything else                        *)
(* A fix of the configured beacon is accepted when a ship position and a      *)
(* heading have been seen for it, and recorded once both have been seen again *)
(* after it, with the ship interpolated to the time of the fix.  An invalid   *)
(* fix of the beacon discards the bracket under construction.                 *)
EXTENDS Num, TLC
G0 == [f |-> 0, pri |-> <<>>, prh |-> -1, fix |-> <<>>, pos |-> <<>>, poh |-> -1, out |-> <<>>]

Flush(g) == IF g.f >= 5
            THEN [g EXCEPT !.f = 0,
                  !.out = Append(@, [fix |-> g.fix, pri |-> g.pri, prh |-> g.prh, pos |-> g.pos, poh |-> g.poh])]
            ELSE g
Step(g, e, beacon) ==
  CASE e.kind = "fix" ->
         IF e.id = beacon /\ g.f = 2
         THEN IF e.good THEN [g EXCEPT !.fix = <<e.t, e.lat, e.lon, e.d>>, !.f = 3] ELSE [g EXCEPT !.f = 0]
         ELSE g
    [] e.kind = "ship" ->
         IF g.f < 3 THEN [g EXCEPT !.pri = <<e.t, e.lat, e.lon>>, !.f = IF @ < 2 THEN @ + 1 ELSE @]
         ELSE Flush([g EXCEPT !.pos = <<e.t, e.lat, e.lon>>, !.f = @ + 1])
    [] e.kind = "hdt" ->
         IF g.f < 3 THEN [g EXCEPT !.prh = e.h, !.f = IF @ < 2 THEN @ + 1 ELSE @]
         ELSE Flush([g EXCEPT !.poh = e.h, !.f = @ + 1])
    [] OTHER -> g

(* the record r of the navigation file describes the bracketed fix b          *)
ShipAt(b, i) == <<b.fix[1], b.pri[1], b.pri[i], b.pos[1], b.pos[i]>>
OnShip(y, b, i, tol) == OnLine(y, b.fix[1], b.pri[1], b.pri[i] * 1000, b.pos[1], b.pos[i] * 1000, tol)
HeadingOk(h, b) ==  \* tenths of a degree, shortest arc
  LET d == AngDiff(b.poh, b.prh, 3600)
      x == AngDiff(h, b.prh, 3600)
  IN Abs(x * (b.pos[1] - b.pri[1]) - d * (b.fix[1] - b.pri[1])) <= 2 * (b.pos[1] - b.pri[1])
-----------------------------------------------------------------------------
CONSTANTS MaxLen
VARIABLES g, n, seen
vars == <<g, n, seen>>
Packets == [kind : {"ship"}, t : {1}, lat : {0}, lon : {0}] \cup [kind : {"hdt"}, h : {5}]
   \cup [kind : {"fix"}, t : {2, 3}, lat : {1}, lon : {1}, d : {9}, id : {2, 3}, good : BOOLEAN]
   \cup [kind : {"other"}]
Init == g = G0 /\ n = 0 /\ seen = {}
Next == /\ n < MaxLen /\ n' = n + 1
        /\ \E e \in Packets :
              /\ g' = Step(g, e, 2)
              /\ seen' = IF e.kind = "fix" /\ e.id = 2 /\ e.good THEN seen \cup {e.t} ELSE seen
Spec == Init /\ [][Next]_vars
\* only valid fixes of the beacon are recorded
OnlyValid == \A i \in DOMAIN g.out : g.out[i].fix[1] \in seen
\* with ship and heading reports alternating, every record has a complete bracket
FlagRange == g.f \in 0..4
\* at most one record per packet, and every record needs five packets of its own
OwnBracket == 5 * Len(g.out) + (IF g.f > 0 THEN 1 ELSE 0) <= n
AppendOnly == [][Len(g'.out) \in {Len(g.out), Len(g.out) + 1}]_vars
=============================================================================
