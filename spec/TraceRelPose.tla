----------------------------- MODULE TraceRelPose -----------------------------
EXTENDS TraceBase
R == INSTANCE RelPose WITH N <- 1, names <- <<>>, a <- 1, b <- 1, cov <- <<>>
F(s) == [i \in DOMAIN s |-> s[i].f]
Clauses(e) ==
  LET want == IF e.given THEN R!Stretch(F(e.poses), e.start, e.stop) ELSE <<>>
      from == IF want = <<>> THEN 1 ELSE CHOOSE i \in DOMAIN e.poses : e.poses[i].f = want[1]
      n == Len(want)
      O(k) == e.poses[from + k - 1]
      C == [k \in 1..n |-> e.cov[from + k - 1].c]
      N(x, y, t) == R!Near(x, y, t)
      same(g) == F(g) = want
      Pose(g, k, t) == /\ g[k].t = O(k).t /\ N(g[k].n, O(k).n, t) /\ N(g[k].e, O(k).e, t) /\ N(g[k].d, O(k).d, t)
                       /\ \A j \in 1..3 : R!Abs(R!AngDiff(g[k].a[j], O(k).a[j], 36000)) <= 2
  IN IF e.status = "crash" THEN {"the command finishes"}
  ELSE Violated(
  [earlier_results_are_kept |-> e.changed = 0,
   refused |-> want = <<>> => e.sub = <<>> /\ e.prop = <<>> /\ e.subcov = <<>> /\ e.propcov = <<>>,
   images_of_the_stretch |-> want # <<>> => same(e.sub) /\ same(e.prop) /\ same(e.subcov) /\ same(e.propcov),
   poses_of_the_earlier_run |-> want # <<>> /\ same(e.sub) => \A k \in 1..n : Pose(e.sub, k, 2),
   times_of_the_images |-> want # <<>> /\ same(e.prop) => \A k \in 1..n : e.prop[k].t = O(k).t,
   restarted_from_the_first_pose |-> want # <<>> /\ same(e.prop) /\ e.plain => Pose(e.prop, 1, 20),
   differences_add_up |-> want # <<>> /\ same(e.subcov) => \A k \in 1..n : LET w == R!Difference(C, k) IN
        \A i \in 1..36 : N(e.subcov[k].c[i], w[i], 3 + R!Abs(w[i]) \div 100000),
   filter_restarted |-> want # <<>> /\ same(e.prop) /\ same(e.propcov) /\ e.ref # <<>> => \A k \in 1..n :
        /\ N(e.prop[k].n, e.ref[k].n, 20) /\ N(e.prop[k].e, e.ref[k].e, 20) /\ N(e.prop[k].d, e.ref[k].d, 20)
        /\ \A j \in 1..3 : R!Abs(R!AngDiff(e.prop[k].a[j], e.ref[k].a[j], 36000)) <= 2
        /\ \A i \in 1..36 : N(e.propcov[k].c[i], e.ref[k].c[i], 20 + R!Abs(e.ref[k].c[i]) \div 1000),
   propagation_starts_certain |-> want # <<>> /\ same(e.propcov) => \A i \in 1..36 : N(e.propcov[1].c[i], 0, 20)])
Init == TraceInit
Next == Consume(Clauses(Ev))
Spec == Init /\ [][Next]_tvars
=============================================================================
