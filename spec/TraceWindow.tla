----------------------------- MODULE TraceWindow -----------------------------
(* Sensor tables of a processed dive against the readings of the parsed dive. *)
EXTENDS TraceBase
W == INSTANCE Window WITH MaxT <- 1, N <- 1, recs <- <<>>, win <- [s |-> 0, e |-> 0], k <- 0, lists <- <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == Abs(a - b) <= 1
(* uncertainty: the reading's own, or offset + factor * |value| (1e-6 units)  *)
Std(m, own, val) == IF m.model = "sensor" THEN own ELSE m.offset + m.factor * Abs(val)
Row(e, r) == [t |-> r.tt, v |-> r.v, s |-> IF Len(r.s) = 0 THEN <<>> ELSE [k \in 1..Len(r.s) |-> Std(e.std[r.kind], r.s[k], r.sv[k])]]
Eq(a, b) == a.t = b.t /\ a.v = b.v /\ Len(a.s) = Len(b.s) /\ \A k \in 1..Len(a.s) : Near(a.s[k], b.s[k])
TableOk(e, kind) == LET w == W!Rows(e.recs, kind, e.from, e.to)
                        r == e.tables[kind]
                    IN Len(w) = Len(r) /\ \A k \in 1..Len(w) : Eq(Row(e, w[k]), r[k])
Clauses(e) ==
  IF e.status # "ok" \/ e.status2 # "ok" THEN {"the command finishes"}
  ELSE {"table " \o k : k \in {x \in DOMAIN e.tables : ~TableOk(e, x)}}
       \cup (IF e.files # e.files2 THEN {"readings outside the span have no influence"} ELSE {})
Init == TraceInit
Next == Consume(Clauses(Ev))
Spec == Init /\ [][Next]_tvars
=============================================================================
