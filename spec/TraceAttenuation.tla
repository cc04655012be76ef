--------------------------- MODULE TraceAttenuation ---------------------------
EXTENDS TraceBase
A == INSTANCE Attenuation WITH Lights <- {1}, Backs <- {0}, Depths <- 1, a <- 0, c <- 0, k <- 0, seen <- 0
Clauses(e) == IF e.status # "ok" THEN {"the command finishes"}
     ELSE IF ~e.stored THEN {"parameters of every pixel and colour are stored"}
     ELSE Violated(
  [fit |-> \A j \in 1..Len(e.px) : \A i \in 1..Len(e.px[j].at) :
             A!Same(e.px[j].fit[i], A!Light(e.px[j].a, e.px[j].c, e.px[j].at[i])),
   gain |-> \A j \in 1..Len(e.px) : A!Same(e.px[j].g, A!Light(e.px[j].a, e.px[j].c, e.target)),
   falling |-> \A j \in 1..Len(e.px) : e.px[j].falling])
Init == TraceInit
Next == Consume(Clauses(Ev))
Spec == Init /\ [][Next]_tvars
=============================================================================
