------------------------------ MODULE TraceGaps ------------------------------
EXTENDS TraceBase
G == INSTANCE Gaps WITH MaxLen <- 0, g <- 0, n <- 0, seen <- 0
VARIABLES gs, beacon, want
vars == <<l, bad, gs, beacon, want>>
N == INSTANCE Num
Sq(x) == x * x

\* records are matched to brackets by time; times of fixes are distinct
ByTime(recs, t) == SelectSeq(recs, LAMBDA r : r.t = t)
AllOf(recs, W, Op(_, _)) ==
  \A i \in DOMAIN W : LET m == ByTime(recs, W[i].fix[1]) IN Len(m) = 1 => Op(m[1], W[i])

Clauses(e) ==
  LET W == want IN
  [ completed |-> e.status = "ok",
    every_bracketed_fix_once |-> \A i \in DOMAIN W : Len(ByTime(e.recs, W[i].fix[1])) = 1,
    nothing_else |-> Len(e.recs) = Len(W) /\ \A i \in DOMAIN e.recs : \E k \in DOMAIN W : W[k].fix[1] = e.recs[i].t,
    position |-> AllOf(e.recs, W, LAMBDA r, b : r.lat = b.fix[2] /\ r.lon = b.fix[3]),
    depth |-> AllOf(e.recs, W, LAMBDA r, b : r.d = b.fix[4]),
    ship_position |-> AllOf(e.recs, W, LAMBDA r, b : G!OnShip(r.slat, b, 2, 3) /\ G!OnShip(r.slon, b, 3, 3)),
    ship_heading |-> AllOf(e.recs, W, LAMBDA r, b : G!HeadingOk(r.sh, b)),
    metric_position |-> \A i \in DOMAIN e.recs : LET r == e.recs[i] IN
         /\ N!Near(r.n, N!RDiv(r.lat * e.mlat, 100), 20) /\ N!Near(r.e, N!RDiv(r.lon * e.mlon, 100), 20)
         /\ N!Near(r.sn, N!RDiv(r.slat * e.mlat, 100000), 20) /\ N!Near(r.se, N!RDiv(r.slon * e.mlon, 100000), 20),
    range |-> \A i \in DOMAIN e.recs : LET r == e.recs[i] IN
         N!Abs(Sq(r.dist) - Sq(r.n - r.sn) - Sq(r.e - r.se) - Sq(r.ddm)) <= 30 * r.dist + 100,
    uncertainty |-> \A i \in DOMAIN e.recs : LET r == e.recs[i] IN
         N!Near(r.std, e.fac * r.dist + e.off, 110) ]

Next ==
  \/ /\ Ev.op = "dive" /\ Consume({}) /\ gs' = G!G0 /\ want' = <<>> /\ beacon' = Ev.beacon
  \/ /\ Ev.op = "file" /\ Consume({}) /\ want' = want \o gs.out /\ gs' = G!G0 /\ UNCHANGED beacon
  \/ /\ Ev.op = "pkt" /\ Consume({}) /\ gs' = G!Step(gs, Ev, beacon) /\ UNCHANGED <<want, beacon>>
  \/ /\ Ev.op = "nav" /\ Consume(Violated(Clauses(Ev))) /\ UNCHANGED <<gs, want, beacon>>
Spec == TraceInit /\ gs = G!G0 /\ beacon = 0 /\ want = <<>> /\ [][l <= Len(Trace) /\ Next]_vars
=============================================================================
