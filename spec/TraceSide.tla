------------------------------ MODULE TraceSide ------------------------------
EXTENDS TraceBase
S == INSTANCE SideFiles WITH N <- 1, X <- 1, s <- <<>>, t <- 0
D == INSTANCE DeadReckoning WITH Step <- 9000, att <- <<0, 0, 0>>
N(x, y) == S!Near(x, y, 1)
Row(r, p) ==
  [own_second |-> r.t = S!Second(p.t),
   position |-> N(r.la, p.la) /\ N(r.lo, p.lo),
   attitude |-> \A j \in 1..3 : N(r.a[j], p.a[j]),
   altitude_and_depth |-> N(r.h, p.h) /\ N(r.d, p.d)]
Names == {"own_second", "position", "attitude", "altitude_and_depth"}
Track(f) == IF ~f.wanted THEN IF f.side = <<>> THEN {} ELSE {"not wanted"}
            ELSE IF Len(f.side) # Len(f.rows) THEN {"a row for every pose"}
            ELSE {c \in Names : \E k \in DOMAIN f.rows : ~Row(f.side[k], f.rows[k])[c]}
Edge(e, k, c) == S!Edges([j \in DOMAIN e.imgs |-> [i |-> e.imgs[j].i, x |-> e.imgs[j].p[c]]])[k]
Spp(e) == IF ~e.spp \/ Len(e.imgs) < 3 THEN IF e.edges = <<>> THEN {} ELSE {"not wanted"}
          ELSE IF Len(e.edges) # Len(e.imgs) - 1 THEN {"an edge for every two images"}
          ELSE {c \in {"edges"} : \E k \in DOMAIN e.edges :
                 \/ e.edges[k].i # Edge(e, k, 1).i \/ e.edges[k].j # Edge(e, k, 1).j
                 \/ \E m \in 1..3 : ~S!Near(e.edges[k].p[m], Edge(e, k, m).x, 2)
                 \/ \E m \in 4..6 : S!Abs(S!AngDiff(e.edges[k].p[m], Edge(e, k, m).x, 360000)) > 2
                 \/ e.edges[k].n # 21 \/ Len(e.edges[k].q) # 6 \/ \E m \in 1..6 : e.edges[k].q[m] < 998}
Speed(e) == \A k \in DOMAIN e.dr.side : e.dr.wanted /\ Len(e.dr.side) = Len(e.dr.rows) =>
                S!Near(e.dr.side[k].v * 10, D!VelAt(e.vel, e.dr.rows[k].t)[1], 15)
Clauses(e) == IF e.status # "ok" THEN {"the command finishes"}
              ELSE Track(e.dr) \cup Track(e.ekf) \cup Track(e.pf) \cup Spp(e) \cup (IF Speed(e) THEN {} ELSE {"forward speed"})
Init == TraceInit
Next == Consume(Clauses(Ev))
Spec == Init /\ [][Next]_tvars
=============================================================================
