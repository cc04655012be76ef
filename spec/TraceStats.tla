------------------------------ MODULE TraceStats ------------------------------
EXTENDS TraceBase
S == INSTANCE Stats WITH Vals <- {0}, MaxN <- 1, xs <- <<>>, k <- 0, sum <- 0, sq <- 0
Bin(b, how) == CASE how = "mean" -> S!MeanIs(b.v, b.m, 1000)
                 [] how = "median" -> S!MedianIs(b.v, b.m, 1000)
                 [] how = "mean_trimmed" -> S!TrimmedIs(b.v, b.m, 1000)
Dist(b) == LET d == S!NonZero(b.d) IN IF d = <<>> THEN b.dm = 0 ELSE S!MeanIs(d, b.dm, 1)
Clauses(e) == IF e.status # "ok" THEN {"the command finishes"}
     ELSE Violated(
  [stored |-> e.stored,
   mean |-> \A j \in 1..Len(e.px) : S!MeanIs(e.px[j].v, e.px[j].m, e.scale),
   deviation |-> \A j \in 1..Len(e.px) : S!StdIs(e.px[j].v, e.px[j].s),
   representative_image |-> \A j \in 1..Len(e.bins) : Bin(e.bins[j], e.how),
   representative_distance |-> \A j \in 1..Len(e.bins) : Dist(e.bins[j])])
Init == TraceInit
Next == Consume(Clauses(Ev))
Spec == Init /\ [][Next]_tvars
=============================================================================
