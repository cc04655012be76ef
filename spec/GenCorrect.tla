------------------------------ MODULE GenCorrect ------------------------------
(* All histories of the given length over one dive's commands *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Len3
VARIABLE x
Cmds == {<<"parse", d, f, "">> : d \in {1, 12}, f \in {0, 1}} \cup {<<"parse", 1, 0, "b">>, <<"process", 1, 0, "b">>}
   \cup {<<"process", 1, f, "">> : f \in {0, 1}} \cup {<<"correct", 1, f, "">> : f \in {0, 1}}
   \cup {<<"change", 1>>, <<"config", 1, "u40">>, <<"lose", 1>>}
Hist == {h \in [1..Len3 -> Cmds] : h[1][1] \in {"parse", "correct"}}
Init == x = 0 /\ JsonSerialize(IOEnv.OUT, SetToSeq(Hist))
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
