-------------------------------- MODULE GenCal --------------------------------
(* All histories of three events that contain a command *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
VARIABLE x
Cmds == {<<op, f, s>> : op \in {"mono", "stereo", "laser"}, f \in 0..2, s \in {"", "x"}}
Env == {<<"images", c, k>> : c \in {0, 1}, k \in {"good", "few", "blank"}} \cup {<<"lasers", k>> : k \in {"good", "few"}} \cup {<<"lose", k>> : k \in {"json", "mono", "stereo"}}
Hist == {<<a, b, c>> : a \in {y \in Cmds : y[2] = 0 /\ y[3] = ""}, b \in Env, c \in Cmds} \cup {<<a, b, c>> : a \in {<<"mono", 0, "">>, <<"stereo", 0, "">>}, b \in Cmds, c \in Cmds}
Init == x = 0 /\ JsonSerialize(IOEnv.OUT, SetToSeq(Hist))
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
