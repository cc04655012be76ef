------------------------------- MODULE CalPairs -------------------------------
(* Which images of two cameras show the same instant.  L, R: sequences of      *)
(* stamps (milliseconds).  An image pairs with the nearest image of the other  *)
(* camera when they are less than Tol apart.                                   *)
EXTENDS Integers, Sequences, FiniteSets
Tol == 50
Abs(x) == IF x < 0 THEN -x ELSE x
Nearest(a, R) == CHOOSE j \in DOMAIN R : \A k \in DOMAIN R : Abs(a - R[j]) < Abs(a - R[k]) \/ (Abs(a - R[j]) = Abs(a - R[k]) /\ j <= k)
Pairs(L, R) == IF R = <<>> THEN {} ELSE {<<i, Nearest(L[i], R)>> : i \in {k \in DOMAIN L : Abs(L[k] - R[Nearest(L[k], R)]) < Tol}}
\* same names
Same(L, R) == {<<i, j>> \in (DOMAIN L) \X (DOMAIN R) : L[i] = R[j]}

(* Shots of a campaign: shot k at 1000 k; either camera may have missed it and *)
(* stamps it up to 20 ms late.                                                 *)
Shots(P) == {k \in DOMAIN P : P[k][1] >= 0 /\ P[k][2] >= 0}
Stamps(P, c) == LET S == {k \in DOMAIN P : P[k][c] >= 0}
                    n == Cardinality(S)
                    nth(i) == CHOOSE k \in S : Cardinality({q \in S : q <= k}) = i
                IN [i \in 1..n |-> 1000 * nth(i) + P[nth(i)][c]]
Owner(P, c, i) == LET S == {k \in DOMAIN P : P[k][c] >= 0} IN CHOOSE k \in S : Cardinality({q \in S : q <= k}) = i
=============================================================================
