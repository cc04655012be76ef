------------------------------- MODULE TraceKoyo -------------------------------
(* Histories of auv_nav convert koyo20rov_to_oplab.  op:                      *)
(*  "new"   an empty processed folder                                         *)
(*  "gone"  the user removes the tables in keys                               *)
(*  "run"   v = what is logged (logs, rot, lm, xv: images), arms; want = the  *)
(*          tables [s, e, f] the run is about, in the order LM, camera A, B;  *)
(*          after = every file found, with its rows                           *)
EXTENDS TraceBase
K == INSTANCE Koyo WITH Step <- 1, att <- <<>>, Ts <- {}, Vs <- {}, MaxLog <- 0, MaxRun <- 0, logs <- <<>>, rot <- <<>>, disk <- {}, ver <- 0, forced <- FALSE
VARIABLE held        \* sequence of [k, v, who]
Keys(s) == {s[i].k : i \in DOMAIN s}
At(s, k) == s[CHOOSE i \in DOMAIN s : s[i].k = k]
Sec(ms) == ms \div 1000
Start(v) == LET tr == K!Track(v.logs) IN Sec(K!MinOf({tr[1].t, K!ByTime(v.rot)[1].t}))
End(v) == LET tr == K!Track(v.logs) r == K!ByTime(v.rot) IN Sec(K!MaxOf({tr[Len(tr)].t, r[Len(r)].t}))
Want(v) == [i \in 1..3 |-> [s |-> Start(v), e |-> End(v), f |-> v.names[i]]]
Refused(e, h) == ~e.force /\ \E i \in 1..3 : Want(e.v)[i] \in Keys(h)
After(e, h) ==
  IF e.op = "new" THEN <<>>
  ELSE IF e.op = "gone" THEN SelectSeq(h, LAMBDA x : x.k \notin K!Rng(e.keys))
  ELSE IF Refused(e, h) THEN h
  ELSE LET w == Want(e.v) IN SelectSeq(h, LAMBDA x : x.k \notin {w[i] : i \in 1..3}) \o [i \in 1..3 |-> [k |-> w[i], v |-> e.v, who |-> i]]
Near(x, y, tol) == K!Near(x, y, tol)
RowOk(v, tr, rot, who, m, r) ==
  LET p == K!Pose(tr, rot, m.t, v.dvl[who], v.dep[who])
  IN [ image |-> r.path = m.path[who] /\ Near(r.t, m.t, 0),
       position |-> K!NoArc(rot, m.t) \/ (Near(r.n, p.n, 4) /\ Near(r.e, p.e, 4)),
       depth |-> K!NoArc(rot, m.t) \/ Near(r.d, p.d, 4), altitude |-> K!NoArc(rot, m.t) \/ Near(r.h, p.h, 4),
       attitude |-> K!NoArc(rot, m.t) \/ (Near(r.a[1], p.a[1], 2) /\ Near(r.a[2], p.a[2], 2) /\ K!Abs(K!AngDiff(r.a[3], p.a[3], 36000)) <= 2),
       latlon |-> Near(r.pn, r.n, 2) /\ Near(r.pe, r.e, 2) ]
Table(h, rows) ==
  LET v == h.v tr == K!Track(v.logs) rot == K!ByTime(v.rot)
      ms == K!Rows(tr, rot, IF h.who = 1 THEN v.lm ELSE v.xv)
  IN IF Len(ms) # Len(rows) THEN {"an_entry_per_image_within_the_navigation"}
     ELSE UNION {Violated(RowOk(v, tr, rot, h.who, ms[i], rows[i])) : i \in DOMAIN ms}
Judge(e, h) ==
  LET a == After(e, h)
  IN Violated([ accepted_or_refused |-> e.status = (IF Refused(e, h) THEN "refused" ELSE "ok"),
                tables_present |-> Keys(e.after) = Keys(a) ])
     \cup UNION {IF a[i].k \in Keys(e.after) THEN Table(a[i], At(e.after, a[i].k).rows) ELSE {} : i \in DOMAIN a}
Init == TraceInit /\ held = <<>>
Next == l <= Len(Trace) /\ Consume(IF Ev.op = "run" THEN Judge(Ev, held) ELSE {}) /\ held' = After(Ev, held)
Spec == Init /\ [][Next]_<<tvars, held>>
=============================================================================
