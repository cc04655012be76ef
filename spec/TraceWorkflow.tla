---------------------------- MODULE TraceWorkflow ----------------------------
(* Replay of command histories.  After every command the files of each dive   *)
(* are recorded as sets of <<name, content>> ids; refnav/refren: what a first *)
(* run on the current inputs writes (recorded on a fresh copy of the inputs). *)
EXTENDS TraceBase
VARIABLES cur, broken, tried
vars == <<l, bad, cur, broken, tried>>
SetOf(s) == {s[i] : i \in DOMAIN s}
D == {1, 2}
W == {"full", "part", "none"}
Empty == [nav |-> {}, ren |-> [w \in W |-> {}]]
Obs(e) == [d \in D |-> [nav |-> SetOf(e.obs[d].nav), ren |-> [w \in W |-> SetOf(e.obs[d].ren[w])]]]
Targets(e) == SetOf(e.dives)
Parsed(d) == cur[d].nav # {}
Tried(d, w) == tried[d][w]

Others(e, o) == \A d \in D \ Targets(e) : o[d] = cur[d]
SkipsAll(e) == ~e.force /\ \A d \in Targets(e) : Parsed(d)
(* dives of one command are handled in order; a broken one stops the command  *)
ParseClauses(e, o) ==
  LET order == e.dives
      stop == {i \in DOMAIN order : broken[order[i]] /\ (e.force \/ ~Parsed(order[i]))}
      upto == IF stop = {} THEN Len(order) ELSE CHOOSE i \in stop : \A j \in stop : i <= j
      runs == {i \in DOMAIN order : i < upto \/ (i = upto /\ i \notin stop)}
  IN [ outcome |-> (stop = {}) = (e.status = "ok"),
       unforced_keeps |-> \A d \in Targets(e) : (~e.force /\ Parsed(d)) => o[d] = cur[d],
       fresh_result |-> \A i \in runs : (e.force \/ ~Parsed(order[i])) => o[order[i]].nav = SetOf(e.refnav[order[i]]),
       failed_keeps |-> \A i \in DOMAIN order \ runs : o[order[i]] = cur[order[i]],
       results_kept |-> \A d \in Targets(e) : o[d].ren = cur[d].ren,
       other_dives_kept |-> Others(e, o) ]
ProcessClauses(e, o) ==
  LET d == e.dives[1]  w == e.win
      refuse == ~Parsed(d) \/ (~e.force /\ Tried(d, w))
  IN [ refused_when_due |-> (refuse \/ broken[d]) => e.status # "ok" /\ (refuse => e.status = "quit"),
       accepted_when_due |-> (~refuse /\ ~broken[d] /\ w # "none") => e.status = "ok",
       unforced_keeps |-> (~e.force /\ Tried(d, w)) => o[d] = cur[d],
       unparsed_creates_nothing |-> ~Parsed(d) => o[d] = cur[d],
       fresh_result |-> (~refuse /\ ~broken[d] /\ w # "none") =>
            /\ SetOf(e.refren) # {} /\ SetOf(e.refren) \subseteq o[d].ren[w]
            /\ (cur[d].ren[w] = {} => o[d].ren[w] = SetOf(e.refren)),
       navigation_kept |-> o[d].nav = cur[d].nav,
       other_spans_kept |-> \A v \in W \ {w} : o[d].ren[v] = cur[d].ren[v],
       other_dives_kept |-> Others(e, o) ]
Keep(e) == [ raw_data_untouched |-> e.rawsame, configuration_untouched |-> e.confsame, nothing_elsewhere |-> e.elsewhere = <<>> ]

Next ==
  \/ /\ Ev.op = "start" /\ Consume({}) /\ cur' = [d \in D |-> Empty] /\ broken' = [d \in D |-> FALSE]
     /\ tried' = [d \in D |-> [w \in W |-> FALSE]]
  \/ /\ Ev.op \in {"change", "config", "lose"} /\ Consume({}) /\ UNCHANGED <<cur, broken, tried>>
  \/ /\ Ev.op = "break" /\ Consume({}) /\ broken' = [broken EXCEPT ![Ev.d] = ~@] /\ UNCHANGED <<cur, tried>>
  \/ /\ Ev.op = "parse"
     /\ Consume(Violated(IF Ev.judge = "N03" THEN ParseClauses(Ev, Obs(Ev)) ELSE Keep(Ev)))
     /\ cur' = Obs(Ev) /\ UNCHANGED <<broken, tried>>
  \/ /\ Ev.op = "process"
     /\ Consume(Violated(IF Ev.judge = "N03" THEN ProcessClauses(Ev, Obs(Ev)) ELSE Keep(Ev)))
     /\ cur' = Obs(Ev) /\ UNCHANGED broken
     \* a span counts as processed once its folder exists, complete or not
     /\ tried' = [d \in D |-> [w \in W |-> tried[d][w] \/ w \in SetOf(Ev.folders[d])]]
Spec == TraceInit /\ cur = [d \in D |-> Empty] /\ broken = [d \in D |-> FALSE] /\ tried = [d \in D |-> [w \in W |-> FALSE]]
        /\ [][l <= Len(Trace) /\ Next]_vars
=============================================================================
