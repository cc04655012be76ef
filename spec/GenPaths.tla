------------------------------- MODULE GenPaths -------------------------------
EXTENDS Paths, TLC, Json, IOUtils
GInit == path = <<>> /\ home = <<>> /\ JsonSerialize(IOEnv.OUT, SetToSeq({p \in All : Inside(p) \/ At(p) = {}}))
GNext == UNCHANGED <<path, home>>
GSpec == GInit /\ [][GNext]_<<path, home>>
=============================================================================
