---------------------------- MODULE StereoPairs ----------------------------
(* Stereo image pairing.  A run parses several dives one after the other.     *)
(* Each dive has the image times of camera 1 and camera 2 in directory order. *)
(* Every camera 1 image is compared with all camera 2 images of its own dive; *)
(* it is recorded with the closest one when that is within the tolerance.     *)
EXTENDS Num, TLC

Nearest(c2, t) == {j \in DOMAIN c2 : \A k \in DOMAIN c2 : Abs(c2[j] - t) <= Abs(c2[k] - t)}
\* within the tolerance; exactly at it is a matter of rounding
Must(c2, t, tol) == \E j \in DOMAIN c2 : Abs(c2[j] - t) < tol
May(c2, t, tol)  == \E j \in DOMAIN c2 : Abs(c2[j] - t) <= tol

\* one camera only: every image is its own partner
Partners(c1, c2) == IF Len(c2) = 0 THEN c1 ELSE c2

(* out: sequence of <<index in c1, index in partners>>                        *)
Meaning(c1, c2, tol, out) ==
  LET p == Partners(c1, c2) IN
  /\ \A i \in DOMAIN c1 : LET m == {k \in DOMAIN out : out[k][1] = i} IN
        /\ Must(p, c1[i], tol) => Cardinality(m) = 1
        /\ ~May(p, c1[i], tol) => m = {}
        /\ Cardinality(m) <= 1
  /\ \A k \in DOMAIN out : out[k][1] \in DOMAIN c1 /\ out[k][2] \in Nearest(p, c1[out[k][1]])

-----------------------------------------------------------------------------
CONSTANTS MaxT, MaxN, Tol, NDives
VARIABLES dive, c1, c2, i, j, best, out, done
vars == <<dive, c1, c2, i, j, best, out, done>>
Lists == UNION {[1..n -> 0..MaxT] : n \in 0..MaxN}
Fresh == /\ i' = 1 /\ j' = 1 /\ best' = 0 /\ out' = <<>>
Init == /\ dive = 1 /\ c1 \in Lists /\ c2 \in Lists /\ i = 1 /\ j = 1 /\ best = 0 /\ out = <<>> /\ done = {}
P == Partners(c1, c2)
Scan == /\ i <= Len(c1) /\ j <= Len(P)
        /\ best' = IF best = 0 \/ Abs(P[j] - c1[i]) < Abs(P[best] - c1[i]) THEN j ELSE best
        /\ j' = j + 1 /\ UNCHANGED <<dive, c1, c2, i, out, done>>
Pair == /\ i <= Len(c1) /\ j > Len(P)
        /\ out' = IF best # 0 /\ Abs(P[best] - c1[i]) <= Tol THEN Append(out, <<i, best>>) ELSE out
        /\ i' = i + 1 /\ j' = 1 /\ best' = 0 /\ UNCHANGED <<dive, c1, c2, done>>
NextDive == /\ i > Len(c1) /\ dive < NDives /\ dive' = dive + 1
            /\ done' = done \cup {<<c1, c2, out>>}
            /\ c1' \in Lists /\ c2' \in Lists /\ Fresh
Next == Scan \/ Pair \/ NextDive
Spec == Init /\ [][Next]_vars

\* finished dives have the declared pairs, whatever came before them
PairsRight == i > Len(c1) => Meaning(c1, c2, Tol, out)
\* while scanning, nothing is recorded that will not stay
NeverDouble == Cardinality({out[k][1] : k \in DOMAIN out}) = Len(out)
HistoryFree == \A d \in done : Meaning(d[1], d[2], Tol, d[3])
=============================================================================
