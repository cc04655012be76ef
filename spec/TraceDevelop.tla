----------------------------- MODULE TraceDevelop -----------------------------
EXTENDS TraceBase
V == INSTANCE Develop
Right(x) == CASE x.mode = "attenuation" -> V!Developed(x.p, x.o)
              [] x.mode = "uniform" -> V!Plain(x.p, x.o)
              [] x.mode = "manual" -> V!Balanced(x.p, x.o)
Clauses(e) == IF e.status # "ok" THEN {"the command finishes"}
     ELSE Violated(
  [one_file_per_image |-> e.got = e.want,
   shape |-> e.shape,
   every_pixel_is_developed_from_its_own |-> \A k \in 1..Len(e.samples) : Right(e.samples[k])])
Init == TraceInit
Next == Consume(Clauses(Ev))
Spec == Init /\ [][Next]_tvars
=============================================================================
