----------------------------- MODULE TraceCorrect -----------------------------
(* Replay of correct_images histories.  obs[d]: <<folder, file, content>> of   *)
(* everything below the camera folders of the dive; ref*: what the same        *)
(* command writes on a fresh copy of the inputs (and current parameters).      *)
EXTENDS TraceBase
VARIABLE cur
vars == <<l, bad, cur>>
SetOf(s) == {s[i] : i \in DOMAIN s}
D == {1, 2}
Obs(e) == [d \in D |-> SetOf(e.obs[d])]
In(o, d, g) == {x \in o[d] : x[1] = g}
Out(o, d, gs) == {x \in o[d] : x[1] \notin gs}
Targets(e) == SetOf(e.dives)
Have(o, d, g, names) == \A q \in SetOf(names) : \E x \in In(o, d, g) : x[2] = q
Outside(e, o, gs) == \A d \in D : IF d \in Targets(e) THEN Out(o, d, gs) = Out(cur, d, gs) ELSE o[d] = cur[d]
Inputs(e) == [inputs_untouched |-> e.inputs]
ParseClauses(e, o) ==
  LET refuse == ~e.force /\ \E d \in Targets(e) : In(cur, d, e.gp) # {}
      fine == ~refuse /\ e.refok
  IN [outcome |-> fine = (e.status = "ok") /\ (refuse => e.status = "quit"),
      refused_keeps |-> ~fine => o = cur,
      fresh_parameters |-> fine => \A d \in Targets(e) : In(o, d, e.gp) = SetOf(e.refpar[d]) /\ Have(o, d, e.gp, e.required),
      nothing_else |-> Outside(e, o, {e.gp})]
ImagesFresh(e, o, d) == LET r == SetOf(e.refimg) IN r # {} /\ r \subseteq In(o, d, e.gi) /\ (In(cur, d, e.gi) = {} => In(o, d, e.gi) = r)
                                  /\ \A x \in In(o, d, e.gi) \ r : x \in cur[d]
ProcessClauses(e, o) ==
  LET d == e.dives[1]
      refuse == ~Have(cur, d, e.gp, e.required) \/ (~e.force /\ In(cur, d, e.gi) # {})
  IN [outcome |-> e.status = IF refuse THEN "quit" ELSE "ok",
      \* cameras are developed in turn: those before the first one that lacks a parameter may have got their images
      refused_keeps |-> refuse => \/ o = cur
                                  \/ /\ e.halfway /\ (e.force \/ In(cur, d, e.gi) = {})
                                     /\ Outside(e, o, {e.gi})
                                     /\ LET late(x) == x[2] \in SetOf(e.lacking) IN {x \in In(o, d, e.gi) : late(x)} = {x \in In(cur, d, e.gi) : late(x)},
      fresh_images |-> ~refuse => ImagesFresh(e, o, d),
      nothing_else |-> Outside(e, o, {e.gi})]
CorrectClauses(e, o) ==
  LET d == e.dives[1]
      stop == ~e.force /\ In(cur, d, e.gp) # {}
      half == ~stop /\ ~e.force /\ In(cur, d, e.gi) # {}
  IN [outcome |-> e.status = IF stop \/ half THEN "quit" ELSE "ok",
      refused_keeps |-> (stop => o = cur) /\ (half => In(o, d, e.gi) = In(cur, d, e.gi)),
      fresh_parameters |-> ~stop => In(o, d, e.gp) = SetOf(e.refpar[d]),
      fresh_images |-> (~stop /\ ~half) => ImagesFresh(e, o, d),
      nothing_else |-> Outside(e, o, {e.gp, e.gi})]
Next ==
  \/ /\ Ev.op = "start" /\ Consume({}) /\ cur' = [d \in D |-> {}]
  \/ /\ Ev.op \in {"change", "config", "lose"} /\ Consume({}) /\ cur' = Obs(Ev)
  \/ /\ Ev.op = "parse" /\ Consume(Violated(ParseClauses(Ev, Obs(Ev)) @@ Inputs(Ev))) /\ cur' = Obs(Ev)
  \/ /\ Ev.op = "process" /\ Consume(Violated(ProcessClauses(Ev, Obs(Ev)) @@ Inputs(Ev))) /\ cur' = Obs(Ev)
  \/ /\ Ev.op = "correct" /\ Consume(Violated(CorrectClauses(Ev, Obs(Ev)) @@ Inputs(Ev))) /\ cur' = Obs(Ev)
Spec == TraceInit /\ cur = [d \in D |-> {}] /\ [][l <= Len(Trace) /\ Next]_vars
=============================================================================
