---------------------------- MODULE TraceFilename ----------------------------
EXTENDS TraceBase
F == INSTANCE FilenameDate
Same(a, b) == a.day = b.day /\ a.sec = b.sec /\ a.us - b.us \in {-1, 0, 1}
\* rows of a timestamp file: idx (digits), stamp (digits), its pattern
Row(e, i) == CHOOSE k \in 1..Len(e.rows) : F!Field(e.rows[k].idx, e.idxpat, "i") = i
Wanted(e, im) == IF F!Has(im.pat, "i")
                 THEN LET r == e.rows[Row(e, F!Field(im.name, im.pat, "i"))] IN F!Instant(r.stamp, e.stamppat)
                 ELSE F!Instant(im.name, im.pat)
Clauses(e) == IF e.status # "ok" THEN {"names are decoded"} ELSE Violated(
  [every_image_once |-> e.listed = e.exist,
   own_instant |-> \A j \in 1..Len(e.images) : Same(Wanted(e, e.images[j]), e.images[j].got)])
Init == TraceInit
Next == Consume(Clauses(Ev))
Spec == Init /\ [][Next]_tvars
=============================================================================
