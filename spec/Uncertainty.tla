----------------------------- MODULE Uncertainty -----------------------------
(* Uncertainties of readings (in 1e-5) and what becomes of them.  A model is  *)
(* [kind, off, fac]: "sensor" takes what the reading states, "linear" is      *)
(* off[k] + fac[k] * |value of axis k| with off in 1e-5 and fac in 1e-3, so   *)
(* that factor times value is in 1e-5 after division by `unit'.               *)
EXTENDS Num
Known(m) == m.kind \in {"sensor", "linear"}
Sigma(m, k, v, stated, unit) ==
  IF m.kind = "sensor" THEN stated
  ELSE m.off[k] + RDiv(m.fac[k] * Abs(v), unit)
(* values between two readings                                                *)
Between(t, t0, y0, t1, y1) == IF y0 < 0 \/ y1 < 0 THEN -1 ELSE Lerp(t, t0, y0, t1, y1)
-----------------------------------------------------------------------------
CONSTANTS MaxV, MaxS
VARIABLES m, v, s, t
vars == <<m, v, s, t>>
Models == [kind : {"sensor"}, off : {<<0>>}, fac : {<<0>>}] \cup [kind : {"linear"}, off : {<<o>> : o \in 0..MaxS}, fac : {<<f * 100>> : f \in 0..MaxS}]
Init == m \in Models /\ v \in [1..2 -> -MaxV..MaxV] /\ s \in [1..2 -> 0..MaxS] /\ t = 0
Next == t < 4 /\ t' = t + 1 /\ UNCHANGED <<m, v, s>>
Spec == Init /\ [][Next]_vars
S(i) == Sigma(m, 1, v[i], s[i], 10)
NeverNegative == S(1) >= 0
Stated == m.kind = "sensor" => S(1) = s[1]
Symmetric == m.kind = "linear" => S(1) = Sigma(m, 1, -v[1], s[1], 10)
Grows == m.kind = "linear" /\ Abs(v[1]) <= Abs(v[2]) => S(1) <= S(2)
Inside == LET b == Between(t, 0, S(1), 4, S(2)) IN MinOf({S(1), S(2)}) <= b /\ b <= MaxOf({S(1), S(2)})
=============================================================================
