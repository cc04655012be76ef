----------------------------- MODULE TracePhins -----------------------------
(* Events: "log" (start of a log, sensor turned by q quarter turns), one      *)
(* "line" per log line, and "nav": what the navigation file holds.            *)
EXTENDS TraceBase
P == INSTANCE Phins WITH MaxLen <- 0, Quarter <- 0, s <- 0, n <- 0, valid <- 0
VARIABLES st, q
vars == <<l, bad, st, q>>
Bag(x) == [v \in {x[i] : i \in DOMAIN x} |-> Cardinality({i \in DOMAIN x : x[i] = v})]
Same(a, b) == Len(a) = Len(b) /\ Bag(a) = Bag(b)

Clauses(e) ==
  [ completed |-> e.status = "ok",
    orientation |-> Same(e.ori, st.ori),
    body_velocity |-> Same(e.vel, st.vel),
    depth |-> Same(e.dep, st.deps),
    altitude |-> Same(e.alt, st.alts) ]

Next ==
  \/ /\ Ev.op = "log" /\ Consume({}) /\ st' = P!S0 /\ q' = Ev.q
  \/ /\ Ev.op = "line" /\ Consume({}) /\ st' = P!Step(st, Ev, q) /\ q' = q
  \/ /\ Ev.op = "nav" /\ Consume(Violated(Clauses(Ev))) /\ UNCHANGED <<st, q>>
Spec == TraceInit /\ st = P!S0 /\ q = 0 /\ [][l <= Len(Trace) /\ Next]_vars
=============================================================================
