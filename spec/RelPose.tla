------------------------------- MODULE RelPose -------------------------------
(* Uncertainties of images relative to the first of a chosen stretch.         *)
EXTENDS Num
Found(s, a) == {i \in DOMAIN s : s[i] = a}
(* the stretch from image a through image b (to the last image if there is no *)
(* b); none when a is missing or comes after b                                *)
Stretch(s, a, b) ==
  LET f == Found(s, a) g == Found(s, b)
  IN IF f = {} \/ (g # {} /\ MinOf(g) < MinOf(f)) THEN <<>>
     ELSE SubSeq(s, MinOf(f), IF g = {} THEN Len(s) ELSE MinOf(g))
(* difference of two independent poses: their covariances add up              *)
Difference(c, k) == IF k = 1 THEN [i \in DOMAIN c[1] |-> 0] ELSE [i \in DOMAIN c[k] |-> c[k][i] + c[1][i]]
-----------------------------------------------------------------------------
CONSTANTS N
VARIABLES names, a, b, cov
vars == <<names, a, b, cov>>
Init == names = <<>> /\ cov = <<>> /\ a \in 1..(N + 1) /\ b \in 1..(N + 1)
Next == Len(names) < N /\ names' = Append(names, Len(names) + 1) /\ \E c \in 0..2 : cov' = Append(cov, <<c>>) /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
St == Stretch(names, a, b)
Ends == St # <<>> => St[1] = a /\ (b \in Rng(names) => St[Len(St)] = b)
Whole == \A i \in DOMAIN names : St # <<>> /\ i >= a /\ (b \notin Rng(names) \/ i <= b) => i \in Rng(St)
Missing == a \notin Rng(names) => St = <<>>
Zero == cov # <<>> => Difference(cov, 1) = <<0>>
NeverSmaller == \A k \in 2..Len(cov) : Difference(cov, k)[1] >= cov[k][1]
=============================================================================
