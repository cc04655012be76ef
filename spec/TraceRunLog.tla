----------------------------- MODULE TraceRunLog -----------------------------
(* One event per command: shown = ids of the messages it printed, stop = id   *)
(* of the reason it gave for stopping (0 none), before / after = logs of the  *)
(* dive as [name, command, lines] (lines are ids), heads = ids of version,    *)
(* user and host, copies = digests of the configuration copies of this run.   *)
EXTENDS TraceBase
L == INSTANCE RunLog WITH Cmds <- {}, Msgs <- {}, MaxT <- 0, MaxRun <- 0, logs <- <<>>, now <- 0, cfg <- 0, copies <- <<>>, shown <- <<>>, last <- <<>>
Old(e, n) == IF \E i \in DOMAIN e.before : e.before[i].name = n THEN e.before[CHOOSE i \in DOMAIN e.before : e.before[i].name = n].lines ELSE <<>>
Mine(e) == {i \in DOMAIN e.after : e.after[i].lines # Old(e, e.after[i].name)}
Text(e) == LET i == CHOOSE k \in Mine(e) : TRUE
               o == Old(e, e.after[i].name)
           IN SubSeq(e.after[i].lines, Len(o) + 1, Len(e.after[i].lines))
Clauses(e) ==
  LET one == Cardinality(Mine(e)) = 1
  IN [ answered |-> e.status \in {"ok", "quit"},
       one_log_of_this_command |-> one /\ \A i \in Mine(e) : e.after[i].cmd = e.cmd,
       earlier_logs_kept |-> \A i \in DOMAIN e.before : \E k \in DOMAIN e.after :
            e.after[k].name = e.before[i].name /\ L!IsPrefix(e.before[i].lines, e.after[k].lines),
       says_who_where_and_which_version |-> one => L!Recorded(e.heads, Text(e)),
       messages_recorded |-> one => LET s == L!Opened(e.shown, Text(e)) IN s # <<>> /\ L!Recorded(s, Text(e)) /\ Len(s) + e.free >= Len(e.shown),
       reason_recorded |-> one /\ e.stop # 0 => \E i \in DOMAIN Text(e) : Text(e)[i] = e.stop,
       configuration_copied |-> e.config # "" => \E i \in DOMAIN e.copies : e.copies[i] = e.config ]
Next == l <= Len(Trace) /\ Consume(Violated(Clauses(Ev)))
Spec == TraceInit /\ [][Next]_tvars
=============================================================================
