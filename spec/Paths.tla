-------------------------------- MODULE Paths --------------------------------
(* A dataset has three trees that differ in one component of the path; moving *)
(* between them replaces that component and nothing else.                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Names, MaxLen
VARIABLES path, home
Trees == {"raw", "processed", "configuration"}
At(p) == {i \in DOMAIN p : p[i] \in Trees}
Inside(p) == Cardinality(At(p)) = 1
Index(p) == CHOOSE i \in At(p) : TRUE
Move(p, t) == [p EXCEPT ![Index(p)] = t]
\* ".." and "." are resolved first
RECURSIVE Plain(_, _)
Plain(p, done) == IF p = <<>> THEN done ELSE
   Plain(Tail(p), IF p[1] = "." THEN done ELSE IF p[1] = ".." THEN (IF done = <<>> THEN done ELSE SubSeq(done, 1, Len(done) - 1)) ELSE Append(done, p[1]))
All == UNION {[1..n -> Names] : n \in 1..MaxLen}
Init == path \in {p \in All : Inside(p)} /\ home = path
Next == \E t \in Trees : path' = Move(path, t) /\ home' = home
Spec == Init /\ [][Next]_<<path, home>>
OneChange == \A i \in DOMAIN path : path[i] # home[i] => i \in At(home)
Back == Move(path, home[Index(home)]) = home
StaysInside == Inside(path) /\ Len(path) = Len(home)
=============================================================================
