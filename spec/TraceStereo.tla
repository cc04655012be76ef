----------------------------- MODULE TraceStereo -----------------------------
(* One event per parsed dive:                                                 *)
(*  c1, c2: <<time, name>> of the images on disk (0.1 ms), lasers likewise    *)
(*  recs: <<t1, name1, t2, name2>> in the navigation file; lrecs: <<t, name>> *)
EXTENDS TraceBase
S == INSTANCE StereoPairs WITH MaxT <- 0, MaxN <- 0, Tol <- 0, NDives <- 0, dive <- 0, c1 <- <<>>, c2 <- <<>>,
     i <- 0, j <- 0, best <- 0, out <- <<>>, done <- {}
N == INSTANCE Num
Col(s, k) == [x \in DOMAIN s |-> s[x][k]]
Bag(x) == [v \in {x[k] : k \in DOMAIN x} |-> Cardinality({k \in DOMAIN x : x[k] = v})]
IndexOf(list, name) == IF \E k \in DOMAIN list : list[k][2] = name
                       THEN CHOOSE k \in DOMAIN list : list[k][2] = name ELSE 0
Pairs(e) == [k \in DOMAIN e.recs |-> <<IndexOf(e.c1, e.recs[k][2]),
                                       IndexOf(S!Partners(e.c1, e.c2), e.recs[k][4])>>]
Names(e) == \A k \in DOMAIN e.recs : Pairs(e)[k][1] # 0 /\ Pairs(e)[k][2] # 0
PairClauses(e) ==
  [ completed |-> e.status = "ok",
    only_files_of_this_dive |-> Names(e),
    pairing |-> IF e.indexed
                THEN \A k \in DOMAIN e.c1 : Cardinality({x \in DOMAIN e.recs : e.recs[x][2] = e.c1[k][2] /\ e.recs[x][4] = e.c2[k][2]}) = 1
                ELSE S!Meaning(Col(e.c1, 1), Col(e.c2, 1), e.tol, Pairs(e)),
    count |-> e.indexed => Len(e.recs) = Len(e.c1),
    times_from_names |-> \A k \in DOMAIN e.recs : Names(e) =>
         LET p == Pairs(e)[k] IN
           /\ N!Near(e.recs[k][1], e.c1[p[1]][1], 1) /\ N!Near(e.recs[k][3], S!Partners(e.c1, e.c2)[p[2]][1], 1)
           /\ e.recs[k][5] = e.recs[k][1],
    laser_images |-> Bag(Col(e.lrecs, 2)) = Bag(Col(e.lasers, 2)),
    laser_times |-> \A k \in DOMAIN e.lrecs : \A m \in DOMAIN e.lasers :
         e.lrecs[k][2] = e.lasers[m][2] => N!Near(e.lrecs[k][1], e.lasers[m][1], 1) ]

(* cameras without partner: imgs = <<time, name>>, recs = <<t, name, t of the record>> *)
SingleClauses(e) ==
  [ completed |-> e.status = "ok",
    every_image_once |-> Bag(Col(e.recs, 2)) = Bag(Col(e.imgs, 2)),
    times_from_names |-> \A k \in DOMAIN e.recs : e.recs[k][3] = e.recs[k][1] /\ \A m \in DOMAIN e.imgs :
         e.recs[k][2] = e.imgs[m][2] => N!Near(e.recs[k][1], e.imgs[m][1], 1) ]

(* clock correction: pts = <<camera clock, computer clock, corrected>> in ms  *)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Affine(p) == \A a, b, c \in DOMAIN p :
   N!Abs((p[b][3] - p[a][3]) * (p[c][1] - p[a][1]) - (p[c][3] - p[a][3]) * (p[b][1] - p[a][1]))
     <= 3 * N!Abs(p[c][1] - p[a][1]) + 3 * N!Abs(p[b][1] - p[a][1])
LeastSquares(p) ==
   LET n == Len(p)
       x == [k \in DOMAIN p |-> p[k][1] - p[1][1]]
       r == [k \in DOMAIN p |-> p[k][2] - p[k][3]]
       sx == Sum(x)  sr == Sum(r)
       ax == Sum([k \in DOMAIN p |-> N!Abs(x[k] - (sx \div n))])
   IN N!Abs(n * Sum([k \in DOMAIN p |-> x[k] * r[k]]) - sx * sr) <= 2 * n * (ax + n)
ClockClauses(e) ==
  [ completed |-> e.status = "ok",
    all_images_kept |-> \A g \in DOMAIN e.groups : Len(e.groups[g]) = e.expect[g],
    not_after_computer_clock |-> \A g \in DOMAIN e.groups : \A k \in DOMAIN e.groups[g] : e.groups[g][k][3] <= e.groups[g][k][2] + 1,
    touches_computer_clock |-> \A g \in DOMAIN e.groups : \E k \in DOMAIN e.groups[g] : N!Near(e.groups[g][k][3], e.groups[g][k][2], 1),
    affine_in_camera_clock |-> \A g \in DOMAIN e.groups : Affine(e.groups[g]),
    follows_trend |-> \A g \in DOMAIN e.groups : LeastSquares(e.groups[g]),
    own_clocks |-> e.foreign = 0 ]

Next == l <= Len(Trace) /\ Consume(Violated(IF Ev.op = "pairs" THEN PairClauses(Ev) ELSE IF Ev.op = "singles" THEN SingleClauses(Ev) ELSE ClockClauses(Ev)))
Spec == TraceInit /\ [][Next]_tvars
=============================================================================
