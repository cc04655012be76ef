----------------------------- MODULE DevelopModel -----------------------------
(* Sanity of the development function over its whole domain: levels grow with *)
(* the raw intensity and with the distance, the tone curve covers the range.  *)
EXTENDS Develop
VARIABLES v, d
P(w, x) == [v |-> w, d |-> x, a |-> 512, c |-> 32, g |-> 24, m |-> 100, s |-> 500, B |-> 20, C |-> 40]
Out(w, x) == Gamma(Normal(Restored(P(w, x)), P(w, x)))
Init == v \in 0..254 /\ d \in 1..6
Next == UNCHANGED <<v, d>>
Spec == Init /\ [][Next]_<<v, d>>
Brighter == Out(v, d) <= Out(v + 1, d) /\ Out(v, d) <= Out(v, d + 1)
Range == Gamma(0) = 0 /\ Gamma(1000) \in 253..255 /\ \A y \in 1..1000 : Gamma(y - 1) <= Gamma(y)
=============================================================================
