------------------------------ MODULE Particles ------------------------------
(* Weighing and resampling of particles.  Weights are in 1/10000; a particle  *)
(* seen before and after a fix is [w, l, c, w2]: weight before, relative      *)
(* likelihood of the fix (largest = 10000), number of copies after, weight of *)
(* each copy after.                                                            *)
EXTENDS Num
U == 10000
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Total(f, S \ {x})
Mass(p) == Total([i \in DOMAIN p |-> p[i].w * p[i].l], DOMAIN p)
(* posterior weights                                                           *)
Post(p) == LET m == Mass(p) \div U IN [i \in DOMAIN p |-> (p[i].w * p[i].l) \div m]
Squares(W) == Total([i \in DOMAIN W |-> W[i] * W[i]], DOMAIN W)
(* the effective number of particles is below half of them                     *)
Degenerate(W) == Squares(W) > (2 * U * U) \div Len(W)
Unsure(W) == LET x == (2 * U * U) \div Len(W) IN Abs(Squares(W) - x) <= x \div 20
Tol(w) == 4 + w \div 25
Kept(p, W) == \A i \in DOMAIN p : p[i].c = 1 /\ Near(p[i].w2, W[i], Tol(W[i]))
(* systematic resampling: copies in proportion to the weight, all alike after  *)
Drawn(p, W) == LET n == Len(W) IN
  /\ Total([i \in DOMAIN p |-> p[i].c], DOMAIN p) = n
  /\ \A i \in DOMAIN p : Abs(p[i].c * U - n * W[i]) <= U + n * Tol(W[i])
  /\ \A i \in DOMAIN p : p[i].c > 0 => Near(p[i].w2, U \div n, 4)
-----------------------------------------------------------------------------
(* Model: the comb that draws the copies, for all weights and offsets.        *)
CONSTANTS N, M
VARIABLES wt, u, d, src, cum, cnt
vars == <<wt, u, d, src, cum, cnt>>
Sum == Total(wt, DOMAIN wt)
(* comb teeth at u + d * Sum for d = 0..N-1 on a line of length N * Sum         *)
Init == /\ wt \in [1..N -> 0..M] /\ Total(wt, DOMAIN wt) > 0 /\ u \in 0..(N * M - 1) /\ u < Sum
        /\ d = 0 /\ src = 1 /\ cum = N * wt[1] /\ cnt = [i \in 1..N |-> 0]
Advance == d < N /\ u + d * Sum >= cum /\ src < N /\ src' = src + 1 /\ cum' = cum + N * wt[src + 1] /\ UNCHANGED <<wt, u, d, cnt>>
Draw == d < N /\ (u + d * Sum < cum \/ src = N) /\ cnt' = [cnt EXCEPT ![src] = @ + 1] /\ d' = d + 1 /\ UNCHANGED <<wt, u, src, cum>>
Spec == Init /\ [][Advance \/ Draw]_vars
Proportional == d = N => \A i \in 1..N : cnt[i] >= (N * wt[i]) \div Sum /\ cnt[i] * Sum < N * wt[i] + Sum
AllDrawn == d = N => Total(cnt, DOMAIN cnt) = N
=============================================================================
