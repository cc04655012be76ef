----------------------------- MODULE UsblOffset -----------------------------
(* The dead-reckoned track is shifted as a whole so that its mean difference  *)
(* to the overlapping acoustic fixes vanishes.                                *)
EXTENDS Num
Br(track, t) == CHOOSE b \in 2..Len(track) : track[b - 1].t <= t /\ t <= track[b].t
On(track, t, f(_)) == LET b == Br(track, t) IN Lerp(t, track[b - 1].t, f(track[b - 1]), track[b].t, f(track[b]))
Overlapping(track, fixes) == {k \in DOMAIN fixes : track[1].t <= fixes[k].t /\ fixes[k].t <= track[Len(track)].t}
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
N(p) == p.n
E(p) == p.e
(* total remaining difference between fixes and the shifted track              *)
Residual(track, fixes, f(_)) == LET O == Overlapping(track, fixes)
                                    g == [k \in O |-> f(fixes[k]) - On(track, fixes[k].t, f)]
                                IN SumOver(O, g)
-----------------------------------------------------------------------------
(* Model: for every small track and set of fixes there is exactly one shift   *)
(* without residual, and it does not change the shape.                        *)
CONSTANTS MaxT, R
VARIABLES trk, fx, sh
Init == /\ trk \in [1..3 -> R] /\ fx \in UNION {[1..n -> [t : 0..MaxT, n : R]] : n \in 1..2} /\ sh = 0
        /\ \A a, b \in DOMAIN fx : a < b => fx[a].t <= fx[b].t
Track(s) == [k \in 1..3 |-> [t |-> (k - 1) * 2, n |-> 12 * trk[k] + s]]
Fix == [k \in DOMAIN fx |-> [t |-> fx[k].t, n |-> 12 * fx[k].n]]
Total == Residual(Track(0), Fix, N)
Next == /\ sh = 0 /\ Overlapping(Track(0), Fix) # {} /\ Total % Cardinality(Overlapping(Track(0), Fix)) = 0
        /\ sh' = Total \div Cardinality(Overlapping(Track(0), Fix)) /\ UNCHANGED <<trk, fx>>
Spec == Init /\ [][Next]_<<trk, fx, sh>>
Vanishes == sh # 0 => Residual(Track(sh), Fix, N) = 0
Shape == \A a, b \in 1..3 : Track(sh)[a].n - Track(sh)[b].n = Track(0)[a].n - Track(0)[b].n
=============================================================================
