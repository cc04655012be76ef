----------------------------- MODULE MissionModel -----------------------------
(* Describing a mission in any order: what is read back depends only on what  *)
(* was written, and is accepted exactly when every frame is known.            *)
EXTENDS MissionVehicle
CONSTANTS Frames, Vals
VARIABLES given, frames, loaded
vars == <<given, frames, loaded>>
Fields == {"origin", "timezone", "label"}
Entries == UNION {[d -> Vals] : d \in SUBSET Fields}
Load(g) == [s \in DOMAIN g |-> [f \in Fields |-> Value(g[s], s, f)]]
Init == given = <<>> /\ frames \in SUBSET Frames /\ loaded = <<>>
Describe == \E s \in {"velocity", "usbl"}, e \in Entries :
              /\ given' = [x \in DOMAIN given \cup {s} |-> IF x = s THEN e ELSE given[x]]
              /\ loaded' = IF FramesOk(given', <<>>, frames) THEN Load(given') ELSE <<>>
              /\ UNCHANGED frames
Write == /\ loaded # <<>> /\ given' = loaded /\ loaded' = Load(loaded) /\ UNCHANGED frames
Next == Describe \/ Write
Spec == Init /\ [][Next]_vars
Survives == loaded # <<>> => Load(loaded) = loaded
Mounted == loaded # <<>> => \A s \in DOMAIN loaded : loaded[s].origin \in frames
=============================================================================
