------------------------------- MODULE GenTide -------------------------------
(* Enumerates every tide table of the bounded model, as input for replay.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxT, MaxH, MaxTides
VARIABLE x
Tables == UNION {{[i \in 1..n |-> <<SetToSortSeq(ts, <)[i], h[i]>>] : h \in [1..n -> 0..MaxH], ts \in {s \in SUBSET (0..MaxT) : Cardinality(s) = n}} : n \in 2..MaxTides}
Init == x = 0 /\ JsonSerialize(IOEnv.OUT, SetToSeq(Tables))
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
