-------------------------------- MODULE RunLog --------------------------------
(* The log folder of a dive: a file per command and second, each a sequence   *)
(* of messages.  Commands are run in sequence; some stop with a reason.       *)
EXTENDS Integers, Sequences, FiniteSets
(* new content of a log after a command with these messages                   *)
Write(old, heading, msgs) == old \o heading \o msgs
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
(* every message shown (as often as shown) is in the text                     *)
Recorded(shown, text) == \A i \in DOMAIN shown : Count(text, shown[i]) >= Count(shown, shown[i])
(* messages shown before the log is opened are not recorded                   *)
RECURSIVE Opened(_, _)
Opened(shown, text) == IF shown = <<>> \/ (\E i \in DOMAIN text : text[i] = Head(shown)) THEN shown ELSE Opened(Tail(shown), text)
-----------------------------------------------------------------------------
CONSTANTS Cmds, Msgs, MaxT, MaxRun
VARIABLES logs, now, cfg, copies, shown, last
vars == <<logs, now, cfg, copies, shown, last>>
MsgsDef == {<<>>, <<1>>, <<1, 2>>, <<2, 2>>}
Names == Cmds \X (0..MaxT)
Init == logs = [x \in {} |-> <<>>] /\ now = 0 /\ cfg = 0 /\ copies = [x \in {} |-> 0] /\ shown = <<>> /\ last = <<>>
Tick == now < MaxT /\ now' = now + 1 /\ UNCHANGED <<logs, cfg, copies, shown, last>>
Edit == cfg < 1 /\ cfg' = cfg + 1 /\ UNCHANGED <<logs, now, copies, shown, last>>
Run == /\ Len(shown) < MaxRun
       /\ \E c \in Cmds, m \in Msgs :
            LET f == <<c, now>>
                old == IF f \in DOMAIN logs THEN logs[f] ELSE <<>>
            IN /\ logs' = [x \in DOMAIN logs \cup {f} |-> IF x = f THEN Write(old, <<0>>, m) ELSE logs[x]]
               /\ copies' = [x \in DOMAIN copies \cup {f} |-> IF x = f THEN cfg ELSE copies[x]]
               /\ shown' = Append(shown, m) /\ last' = <<f, m, cfg>>
       /\ UNCHANGED <<now, cfg>>
Next == Tick \/ Edit \/ Run
Spec == Init /\ [][Next]_vars
Documented == last # <<>> => Recorded(last[2], logs[last[1]]) /\ logs[last[1]] # <<>>
Copied == last # <<>> => copies[last[1]] = last[3]
OnlyGrows == [][\A f \in DOMAIN logs : f \in DOMAIN logs' /\ IsPrefix(logs[f], logs'[f])]_vars
=============================================================================
