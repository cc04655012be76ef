------------------------------- MODULE Clock -------------------------------
(* Camera clock correction.  Points <<x, y>>: x camera clock, y computer       *)
(* clock minus camera clock (which only ever arrives late).  A line is fitted  *)
(* by least squares and lowered until no point lies below it; the corrected    *)
(* time of an image is x + line(x).  Rational arithmetic: slope A/D with D > 0 *)
EXTENDS Num, TLC
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
CONSTANTS MaxX, MaxY, NPts
VARIABLES pts, k, low, a, d
vars == <<pts, k, low, a, d>>
X == [i \in 1..NPts |-> pts[i][1]]
Y == [i \in 1..NPts |-> pts[i][2]]
Den(p) == NPts * Sum([i \in 1..NPts |-> p[i][1] * p[i][1]]) - Sum([i \in 1..NPts |-> p[i][1]]) * Sum([i \in 1..NPts |-> p[i][1]])
Slope(p) == NPts * Sum([i \in 1..NPts |-> p[i][1] * p[i][2]]) - Sum([i \in 1..NPts |-> p[i][1]]) * Sum([i \in 1..NPts |-> p[i][2]])
Init == /\ pts \in [1..NPts -> (0..MaxX) \X (0..MaxY)] /\ Den(pts) # 0
        /\ k = 1 /\ a = Slope(pts) /\ d = Den(pts) /\ low = d * pts[1][2] - a * pts[1][1]
\* one pass for the lowest residual: intercept = min over points of y - m x
Lower == /\ k <= NPts /\ k' = k + 1
         /\ low' = LET c == d * pts[k][2] - a * pts[k][1] IN IF c < low THEN c ELSE low
         /\ UNCHANGED <<pts, a, d>>
Next == Lower
Spec == Init /\ [][Next]_vars
Line(x) == a * x + low            \* times d
Done == k > NPts
NeverLate == Done => \A i \in 1..NPts : Line(pts[i][1]) <= d * pts[i][2]
Touches == Done => \E i \in 1..NPts : Line(pts[i][1]) = d * pts[i][2]
\* residuals are uncorrelated with the camera clock
Trend == Done => NPts * Sum([i \in 1..NPts |-> X[i] * (d * Y[i] - Line(X[i]))])
                 = Sum(X) * Sum([i \in 1..NPts |-> d * Y[i] - Line(X[i])])
=============================================================================
