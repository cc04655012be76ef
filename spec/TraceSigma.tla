------------------------------ MODULE TraceSigma ------------------------------
(* Uncertainties and velocities of one processed dive.                        *)
EXTENDS TraceBase
U == INSTANCE Uncertainty WITH MaxV <- 1, MaxS <- 1, m <- [kind |-> "sensor"], v <- <<>>, s <- <<>>, t <- 0
D == INSTANCE DeadReckoning WITH Step <- 9000, att <- <<0, 0, 0>>
P == INSTANCE PoseInterp WITH Step <- 9000, att <- <<0, 0, 0>>
Clauses(e) ==
  IF ~e.known THEN IF e.status # "quit" THEN {"an unknown model is refused"} ELSE {}
  ELSE IF e.status # "ok" THEN {"the command finishes"}
  ELSE
  LET ps == SetToSortSeq(D!Poses(e.ori, e.vel), LAMBDA a, b : a < b)
      n == Len(ps)
      O(k) == e.ori[ps[k]]
      vb(k) == D!Bracket(e.vel, O(k).t)
      db(k) == D!Bracket(e.dep, O(k).t)
      Lin(s, b, q, f(_)) == U!Between(q, s[b - 1].t, f(s[b - 1]), s[b].t, f(s[b]))
      sv(k, j) == Lin(e.vel, vb(k), O(k).t, LAMBDA r : U!Sigma(e.m.speed, j, r.v[j], r.s[j], 100))
      sa(k, j) == U!Sigma(e.m.orientation, 1, O(k).a[j], O(k).s, 1)
      sz(k) == Lin(e.dep, db(k), O(k).t, LAMBDA r : U!Sigma(e.m.position_z, 1, r.y, r.s, 100))
      want == [k \in 1..n |-> <<-1, -1, sz(k), sa(k, 1), sa(k, 2), sa(k, 3), sv(k, 1), sv(k, 2), sv(k, 3), -1, -1, -1>>]
      body == [k \in 1..n |-> LET v == D!VelAt(e.vel, O(k).t) c == D!WxR(D!Rate(e.ori, ps[k]), e.dvlpos) IN [j \in 1..3 |-> v[j] + c[j]]]
      Near(x, y) == (x < 0 <=> y < 0) /\ (x >= 0 => D!Near(x, y, 4 + y \div 20000))
      Holds(rows) == Len(rows) = n /\ \A k \in 1..n : \A j \in 1..12 : (j = 3 /\ ~D!Covered(e.dep, O(k).t)) \/ Near(rows[k].s[j], want[k][j])
      Img(r) == LET b == P!Br(e.centre, r.t)
                    f == IF r.t = e.centre[1].t THEN 0 ELSE 1
                    lo == IF f = 0 THEN 1 ELSE b - 1
                    hi == IF f = 0 THEN 1 ELSE b
                IN /\ \A j \in 1..12 : Near(r.s[j], IF f = 0 THEN e.centre[1].s[j] ELSE U!Between(r.t, e.centre[lo].t, e.centre[lo].s[j], e.centre[hi].t, e.centre[hi].s[j]))
                   /\ \A j \in 1..3 : D!Near(r.v[j], IF f = 0 THEN body[1][j] ELSE D!Lerp(r.t, e.centre[lo].t, body[lo][j], e.centre[hi].t, body[hi][j]), 15)
  IN Violated(
  [uncertainty_of_the_track |-> Holds(e.dvl),
   uncertainty_of_the_centre |-> Holds(e.centre),
   uncertainty_and_velocity_of_images |-> Holds(e.centre) => \A x \in DOMAIN e.images : \A k \in DOMAIN e.images[x] : Img(e.images[x][k])])
Init == TraceInit
Next == Consume(Clauses(Ev))
Spec == Init /\ [][Next]_tvars
=============================================================================
