------------------------------- MODULE EkfGate -------------------------------
(* The outlier gate and the correction of one quantity, in exact rationals.   *)
(* Predicted value x with variance p, measurement z with variance r, gate thr *)
(* (in standard deviations): used iff (z - x)^2 < thr^2 (p + r).              *)
EXTENDS Integers, Num
CONSTANTS M, V, Thr
VARIABLES x, p, z, r, ang
vars == <<x, p, z, r, ang>>
Init == x \in 0..M /\ z \in 0..M /\ p \in 1..V /\ r \in 1..V /\ ang \in BOOLEAN
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Inn == IF ang THEN AngDiff(z, x, M) ELSE z - x              \* angles: along the shortest arc
Used == Inn * Inn < Thr * Thr * (p + r)
\* corrected value times (p + r), corrected variance times (p + r)
Xn == IF Used THEN x * (p + r) + p * Inn ELSE x * (p + r)
Pn == IF Used THEN p * r ELSE p * (p + r)
Between == \/ (x * (p + r) <= Xn /\ Xn <= (x + Inn) * (p + r)) \/ ((x + Inn) * (p + r) <= Xn /\ Xn <= x * (p + r))
NeverLessCertain == Pn <= p * (p + r)
RejectedLeavesAll == ~Used => Xn = x * (p + r) /\ Pn = p * (p + r)
Shortest == ang => 2 * Inn <= M /\ 2 * Inn >= -M
\* the decision on a recorded correction: squared distance and squared gate in the same unit
Accept(d2, g2) == d2 < g2
=============================================================================
