------------------------------ MODULE PoseModel ------------------------------
(* Interpolating poses between two instants: all small headings and times.    *)
EXTENDS Integers, Sequences
CONSTANTS Grid, Dt
VARIABLES y0, y1, t
P == INSTANCE PoseInterp WITH Step <- 9000, att <- <<0, 0, 0>>
Init == y0 \in {Grid * k : k \in 0..((36000 \div Grid) - 1)} /\ y1 \in {Grid * k : k \in 0..((36000 \div Grid) - 1)} /\ t = 0
Next == t < Dt /\ t' = t + 1 /\ UNCHANGED <<y0, y1>>
Spec == Init /\ [][Next]_<<y0, y1, t>>
pose(tt, yy) == [t |-> tt, n |-> 100 * tt, e |-> 0, d |-> 0, h |-> 0, a |-> <<0, 0, yy>>]
track == <<pose(0, y0), pose(Dt, y1)>>
A == P!PoseAt(track, t, <<0, 0, 0>>)
Amb == P!Ambiguous(track, t)
(* starts and ends at the given poses                                         *)
Ends == (t = 0 => P!AngNear(A.a[3], y0, 0)) /\ (t = Dt => P!AngNear(A.a[3], y1, 0)) /\ A.n = 100 * t
(* never turns by more than the shortest arc                                  *)
Shortest == ~Amb => P!Abs(P!AngDiff(A.a[3], y0, 36000)) + P!Abs(P!AngDiff(A.a[3], y1, 36000))
                       <= P!Abs(P!AngDiff(y1, y0, 36000)) + 1
Range == A.a[3] >= 0 /\ A.a[3] < 36000
(* a lever arm keeps its length and follows the heading                       *)
ArmP == P!PoseAt(track, t, <<10000, 0, 500>>)
Lever == LET dn == ArmP.n - A.n de == ArmP.e - A.e
         IN P!Near(P!RDiv(dn * dn + de * de, 10000), 10000, 10) /\ ArmP.d - A.d = 500 /\ A.h - ArmP.h = 500
=============================================================================
