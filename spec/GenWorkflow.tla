----------------------------- MODULE GenWorkflow -----------------------------
(* All command histories of the given length (replayed into the real code)    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Len3
VARIABLE x
Cmds == {<<"parse", d, f>> : d \in {1, 2, 12}, f \in {0, 1}}
   \cup {<<"process", d, f, w>> : d \in {1, 2}, f \in {0, 1}, w \in {"full", "part", "none"}}
   \cup {<<c, d>> : c \in {"change", "config", "break"}, d \in {1, 2}}
Hist == [1..Len3 -> Cmds]
Init == x = 0 /\ JsonSerialize(IOEnv.OUT, SetToSeq(Hist))
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
