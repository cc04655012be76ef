----------------------------- MODULE Attenuation -----------------------------
(* Light reaching the camera falls off exponentially with the distance, onto  *)
(* a constant background: in tenths of a metre k (from 2 m), a light of a     *)
(* becomes a * 2^(-k/10).  A dive gives the intensity of a pixel at the       *)
(* distances for which there are at least Enough images; parameters fitted to *)
(* them predict the intensity at every distance, and the gain is the          *)
(* prediction at the mean distance of all images, so that what was seen at    *)
(* any distance is restored to what would have been seen at that one.         *)
(* Intensities in 1/10000 of full scale.                                      *)
EXTENDS Num, SequencesExt
CONSTANTS Lights, Backs, Depths
VARIABLES a, c, k, seen
vars == <<a, c, k, seen>>
RECURSIVE Fade(_, _)
\* in 1/100 of the unit to keep rounding small
Fade(x, n) == IF n = 0 THEN x ELSE RDiv(Fade(x, n - 1) * 933, 1000)
Light(x, y, n) == RDiv(Fade(100 * x, n), 100) + y
Same(p, q) == Near(p, q, 20 + (q \div 200))
Init == a \in Lights /\ c \in Backs /\ k = 0 /\ seen = a + c
Away == k < Depths /\ k' = k + 1 /\ seen' = Light(a, c, k + 1) /\ UNCHANGED <<a, c>>
Spec == Init /\ [][Away]_vars
\* what the correction with true parameters does to what is seen
Restore(v, x, y, n, t) == RDiv((v * Light(x, y, t)), Light(x, y, n))
Halves == k = 10 => Near(2 * (seen - c), a, 8)
Darker == [][seen' <= seen]_vars
Flat == \A t \in 0..Depths : Near(Restore(seen, a, c, k, t), Light(a, c, t), 1)
=============================================================================
