---------------------------- MODULE TraceSelection ----------------------------
EXTENDS TraceBase
S == INSTANCE ImageSelection WITH Alts <- {0}, MaxRows <- 0, Lo <- 0, Hi <- 0, dives <- <<>>, d <- 0, i <- 0, imgs <- <<>>, alts <- <<>>
V == INSTANCE Develop
Ids(s) == [k \in 1..Len(s) |-> s[k].id]
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Val(e, id) == e.vals[id]
\* an image developed with its own altitude
Pix(e, r) == [v |-> Val(e, r.id), d |-> r.alt \div 1000, a |-> e.p.a, c |-> e.p.c, g |-> e.p.g, m |-> e.p.m, s |-> e.p.s, B |-> e.p.B, C |-> e.p.C]
Process(e) ==
  LET w == S!Selected(e.rows, e.lo, e.hi)
      W == S!Rng(Ids(w))
      got == S!Rng(Ids(e.out))
  IN IF e.status # "ok" THEN {"the command finishes"}
     ELSE Violated(
  [nothing_else_is_developed |-> got \subseteq W,
   everything_selected_is_developed |-> W \subseteq got,
   once |-> Len(e.out) = Cardinality(got),
   own_altitude |-> \A k \in 1..Len(e.out) : \A j \in 1..Len(w) : w[j].id = e.out[k].id => V!Developed(Pix(e, w[j]), e.out[k].o),
   listed_with_own_navigation |-> /\ S!Rng(Ids(e.list)) = W
        /\ \A k \in 1..Len(e.list) : \E j \in 1..Len(w) : w[j].id = e.list[k].id /\ w[j].alt = e.list[k].alt])
Means(e) ==
  LET w == S!Union(e.dives, e.lo, e.hi)
      n == Len(w)
      t == Sum([k \in 1..n |-> Val(e, w[k].id)])
  IN IF n < 3 THEN (IF e.status # "quit" THEN {"too few images are refused"} ELSE {})
     ELSE IF e.status # "ok" THEN {"the command finishes"}
     ELSE Violated(
  [parameters_for_every_dive |-> \A k \in 1..Len(e.means) : Len(e.means[k]) = 1,
   mean_of_the_selected_images |-> \A k \in 1..Len(e.means) : Len(e.means[k]) = 1 => S!Near(n * e.means[k][1], 1000 * t, 3 * n)])
\* altitude bins of 10 cm holding at least ten images
Bins(e) ==
  LET w == S!Union(e.dives, e.lo, e.hi)
      B(b) == SelectSeq(w, LAMBDA r : (r.alt - e.lo) \div 100 = b)
      nb == (e.hi - e.lo) \div 100
      sv(s) == Sum([k \in 1..Len(s) |-> Val(e, s[k].id)])
      sa(s) == Sum([k \in 1..Len(s) |-> s[k].alt])
  IN IF e.status # "ok" THEN {"the command finishes"}
     ELSE Violated(
  [bins |-> Len(e.img) = nb /\ Len(e.dist) = nb,
   sparse_bins_unused |-> \A b \in 1..Len(e.img) : Len(B(b - 1)) < 10 => e.img[b] = 0 /\ e.dist[b] = 0,
   images_of_the_bin |-> \A b \in 1..Len(e.img) : LET s == B(b - 1) IN Len(s) >= 10 => S!Near(Len(s) * e.img[b], 1000 * sv(s), 3 * Len(s)),
   altitudes_of_the_bin |-> \A b \in 1..Len(e.img) : LET s == B(b - 1) IN Len(s) >= 10 => S!Near(Len(s) * e.dist[b], sa(s), Len(s))])
Clauses(e) == IF e.kind = "process" THEN Process(e) ELSE IF e.kind = "means" THEN Means(e) ELSE Bins(e)
Init == TraceInit
Next == Consume(Clauses(Ev))
Spec == Init /\ [][Next]_tvars
=============================================================================
