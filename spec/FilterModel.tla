------------------------------ MODULE FilterModel ------------------------------
(* The scan of the lateral filter (fix i, neighbour i + n) keeps exactly the  *)
(* declared fixes, for all fix sequences on a small line.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, M                   \* N fixes at positions 0..M, one per second
VARIABLES pos, i, n, kept
vars == <<pos, i, n, kept>>
F == INSTANCE UsblFilter
fix == [k \in 1..N |-> [t |-> 1000 * k, n |-> pos[k], e |-> 0, s |-> 0, d |-> 0, sd |-> 0]]
c == [sigma |-> 1, speed |-> 1, depth |-> TRUE, lateral |-> TRUE]
Init == pos \in [1..N -> 0..M] /\ i = 3 /\ n = -2 /\ kept = {}
Scan == /\ i <= N - 2 /\ UNCHANGED pos
        /\ IF F!Reach(fix[i], fix[i + n], c)
           THEN LET m == IF n = -1 THEN 1 ELSE n + 1 IN
                IF m > 2 THEN kept' = kept \cup {i} /\ n' = -2 /\ i' = i + 1 ELSE n' = m /\ UNCHANGED <<i, kept>>
           ELSE n' = -2 /\ i' = i + 1 /\ UNCHANGED kept
Spec == Init /\ [][Scan]_vars
Exact == i > N - 2 => kept = F!KeepIdx(fix, c)
\* a steady vehicle below the maximum speed keeps everything but the ends
Steady == (i > N - 2 /\ \A k \in 2..N : F!Abs(pos[k] - pos[k - 1]) <= 1) => kept = 3..(N - 2)
\* a lone far outlier and nothing beyond two places from it is removed
Local == i > N - 2 => \A o \in 3..(N - 2) : (\A a, b \in (1..N) \ {o} : F!Reach(fix[a], fix[b], c)) => {k \in 3..(N - 2) : F!Abs(k - o) > 2} \subseteq kept
=============================================================================
