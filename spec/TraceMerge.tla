----------------------------- MODULE TraceMerge -----------------------------
EXTENDS TraceBase
M == INSTANCE Merge WITH NDives <- 0, MaxRows <- 0, MaxT <- 0, ds <- <<>>, i <- 0, joined <- <<>>, out <- <<>>, refused <- FALSE
Clauses(e) ==
  IF M!SameOrigin(e.dives)
  THEN [ completed |-> e.status = "ok",
         one_origin_first |-> e.status = "ok" => e.first = e.dives[1].origin,
         every_reading_once |-> e.status = "ok" => M!IsMerge(e.merged, e.dives),
         chronological |-> M!Ordered(e.merged),
         folder_of_first_and_last |-> e.status = "ok" => e.named,
         described_as_first_listed |-> e.status = "ok" => e.described,
         dives_as_parsed_alone |-> e.kept,
         merged_dive_processed |-> e.processed \in {"ok", "skip"},
         poses_carry_dive_names |-> e.processed = "ok" =>
            \A k \in DOMAIN e.dives : e.dives[k].name \in {e.prefixes[x] : x \in DOMAIN e.prefixes} ]
  ELSE [ refused |-> e.status = "quit", nothing_merged |-> e.merged = <<>>, dives_as_parsed_alone |-> e.kept ]
Next == l <= Len(Trace) /\ Consume(Violated(Clauses(Ev)))
Spec == TraceInit /\ [][Next]_tvars
=============================================================================
