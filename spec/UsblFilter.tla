------------------------------ MODULE UsblFilter ------------------------------
(* The acoustic filter.  A fix is [t, n, e, s, d, sd]: time (ms), position    *)
(* (cm), radius of its horizontal uncertainty (cm), depth and its uncertainty *)
(* (cm); depth readings are [t, y, s].  c = [sigma, speed (cm/s), depth,      *)
(* lateral] is the configuration.                                             *)
EXTENDS Num, SequencesExt
Bracket(s, t) == CHOOSE b \in 2..Len(s) : s[b - 1].t <= t /\ t <= s[b].t
\* at least a second inside the depth record
Timely(u, dep) == Len(dep) > 0 /\ u.t >= dep[1].t + 1000 /\ u.t + 1000 <= dep[Len(dep)].t
DepthAt(dep, t) == LET b == Bracket(dep, t) IN [y |-> Lerp(t, dep[b - 1].t, dep[b - 1].y, dep[b].t, dep[b].y), s |-> Lerp(t, dep[b - 1].t, dep[b - 1].s, dep[b].t, dep[b].s)]
DepthGap(u, dep, c) == LET d == DepthAt(dep, u.t) IN Abs(u.d - d.y) - c.sigma * (u.sd + d.s)
DepthOk(u, dep, c) == DepthGap(u, dep, c) <= 0
Envelope(u, v, c) == c.sigma * (u.s + v.s + RDiv(Abs(u.t - v.t) * c.speed, 1000))
Reach(u, v, c) == LET dn == u.n - v.n de == u.e - v.e IN Envelope(u, v, c) > 40000 \/ (dn * dn + de * de) <= Envelope(u, v, c) * Envelope(u, v, c)
First(us, dep, c) == SelectSeq(us, LAMBDA u : Timely(u, dep) /\ (c.depth => DepthOk(u, dep, c)))
KeepIdx(f, c) == {i \in 1..Len(f) : i > 2 /\ i <= Len(f) - 2 /\ \A k \in {-2, -1, 1, 2} : Reach(f[i], f[i + k], c)}
Pick(f, I) == [k \in 1..Cardinality(I) |-> f[SetToSortSeq(I, LAMBDA a, b : a < b)[k]]]
Survivors(us, dep, c) == LET f == First(us, dep, c) IN IF c.lateral THEN Pick(f, KeepIdx(f, c)) ELSE f
=============================================================================
