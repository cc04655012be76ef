-------------------------------- MODULE Stats --------------------------------
(* Statistics of a finite list of integers, and the running computation of    *)
(* mean and squared deviation (scaled so that it stays exact).                *)
EXTENDS Num, SequencesExt
CONSTANTS Vals, MaxN
VARIABLES xs, k, sum, sq
vars == <<xs, k, sum, sq>>
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Sq(s) == FoldLeft(LAMBDA a, b : a + b * b, 0, s)
\* n^2 times the population variance
Spread(s) == Len(s) * Sq(s) - Sum(s) * Sum(s)
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
MeanIs(s, m, scale) == Near(m * Len(s), scale * Sum(s), 3 * Len(s))
MedianIs(s, m, scale) == LET t == Sorted(s) n == Len(s) IN
   IF n % 2 = 1 THEN Near(m, scale * t[(n + 1) \div 2], 3) ELSE Near(2 * m, scale * (t[n \div 2] + t[n \div 2 + 1]), 6)
\* a tenth of the values dropped at either end
Trimmed(s) == SubSeq(Sorted(s), (Len(s) \div 10) + 1, (9 * Len(s)) \div 10)
TrimmedIs(s, m, scale) == MeanIs(Trimmed(s), m, scale)
\* deviation d in tenths; 100 times the variance from values centred on their (rounded) mean
Centred(s) == LET c == Sum(s) \div Len(s) IN [j \in 1..Len(s) |-> s[j] - c]
Var100(s) == LET q == Spread(Centred(s)) n == Len(s) IN 100 * (q \div (n * n)) + ((100 * (q % (n * n))) \div (n * n))
StdIs(s, d) == Near(d * d, Var100(s), 3 * (d + 10))
NonZero(s) == SelectSeq(s, LAMBDA x : x # 0)

\* Welford's recurrence: mean = sum / k, and each step adds (x k - sum')^2 / (k (k-1)) type terms;
\* kept as integers: sq_k = k * (sum of squares) - sum^2
Init == xs \in UNION {[1..n -> Vals] : n \in 1..MaxN} /\ k = 0 /\ sum = 0 /\ sq = 0
Step == /\ k < Len(xs)
        /\ LET x == xs[k + 1] IN
             /\ sum' = sum + x
             \* M_(k+1) = M_k + (x - mean_k)(x - mean_(k+1)); times k(k+1):
             /\ sq' = IF k = 0 THEN 0 ELSE ((k + 1) * sq + (k * x - sum) * ((k + 1) * x - (sum + x))) \div k
        /\ k' = k + 1 /\ UNCHANGED xs
Spec == Init /\ [][Step]_vars
Exact == k > 0 => sum = Sum(SubSeq(xs, 1, k)) /\ sq = Spread(SubSeq(xs, 1, k))
CentreFree == k = Len(xs) => Spread(xs) = Spread(Centred(xs))
OrderFree == k = Len(xs) => Spread(xs) = Spread(Sorted(xs)) /\ Sum(xs) = Sum(Sorted(xs))
=============================================================================
