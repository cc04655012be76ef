------------------------------ MODULE SideFiles ------------------------------
(* Files for sidescan software (the track, in whole seconds) and for SLAM++   *)
(* (differences between consecutive images) that repeat the result tables.    *)
EXTENDS Num
(* the whole second of an instant in ms, also before the reference instant    *)
Second(t) == IF t >= 0 THEN t \div 1000 ELSE 0 - ((999 - t) \div 1000)
(* edges of a sequence of images numbered s[k].i and posed s[k].x             *)
Edges(s) == [k \in 1..(Len(s) - 1) |-> [i |-> s[k].i - s[1].i, j |-> s[k].i - s[1].i + 1, x |-> s[k].x - s[k + 1].x]]
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k].x + Sum(s, k - 1)
-----------------------------------------------------------------------------
CONSTANTS N, X
VARIABLES s, t
vars == <<s, t>>
Init == s = <<>> /\ t \in -2100..2100
Next == Len(s) < N /\ \E x \in -X..X, d \in 1..2 : s' = Append(s, [i |-> d + (IF s = <<>> THEN 4 ELSE s[Len(s)].i), x |-> x]) /\ t' = 0
Spec == Init /\ [][Next]_vars
Whole == Second(t) * 1000 <= t /\ t < (Second(t) + 1) * 1000
FromZero == Len(s) > 1 => Edges(s)[1].i = 0 /\ Edges(s)[1].j = 1
Telescopes == Len(s) > 1 => Sum(Edges(s), Len(s) - 1) = s[1].x - s[Len(s)].x
Consecutive == Len(s) > 1 => \A k \in 1..(Len(s) - 1) : s[k + 1].i = s[k].i + 1 => s[k + 1].i - s[1].i = Edges(s)[k].j
=============================================================================
