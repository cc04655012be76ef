----------------------------- MODULE TraceWriters -----------------------------
(* One event: a dive processed once with its writers one after another and    *)
(* several times with disturbed writers.  e.runs[1] is the serial run.        *)
EXTENDS TraceBase
M == INSTANCE Writers WITH W <- 1, MaxRows <- 1, rows <- <<>>, on <- <<>>, pc <- <<>>, seen <- <<>>, folder <- FALSE,
                           file <- <<>>, started <- 0, joined <- FALSE
Files(r) == {r.files[k].path : k \in 1..Len(r.files)}
Digest(r) == {<<r.files[k].path, r.files[k].sha>> : k \in 1..Len(r.files)}
Clauses(e) ==
  LET x == M!Expected(e)
      r == e.runs[1]
      names == {y[1] : y \in x}
      R == 1..Len(e.runs)
      whole(k) == {e.runs[k].files[j].path : j \in {i \in 1..Len(e.runs[k].files) : e.runs[k].files[i].odd > 0}} = {}
  IN IF \E k \in R : e.runs[k].status # "ok" THEN {"the command finishes"}
     ELSE {"table missing: " \o f : f \in names \ Files(r)} \cup {"table not selected: " \o f : f \in Files(r) \ names}
          \cup {"rows of " \o y[1] : y \in {z \in x : \E k \in 1..Len(r.files) : r.files[k].path = z[1] /\
                        IF z[2] = -1 THEN r.files[k].rows < 1 ELSE r.files[k].rows # z[2]}}
          \cup Violated([rows_well_formed |-> \A k \in R : whole(k),
                         same_for_every_schedule |-> \A k \in R : Digest(e.runs[k]) = Digest(r),
                         no_writer_fails |-> \A k \in R : e.runs[k].failures = 0])
Init == TraceInit
Next == Consume(Clauses(Ev))
Spec == Init /\ [][Next]_tvars
=============================================================================
